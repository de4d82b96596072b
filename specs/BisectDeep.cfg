SPECIFICATION Spec
CONSTANTS
  MaxNodes = 8
  MaxValue = 4
INVARIANTS Correct RangeInv StepsBound
PROPERTY Ends
