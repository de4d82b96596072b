SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Options = 3
INVARIANTS Memoryless Unique
