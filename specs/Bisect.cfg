SPECIFICATION Spec
CONSTANTS
  MaxNodes = 6
  MaxValue = 4
INVARIANTS Correct RangeInv StepsBound
PROPERTY Ends
