SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
INVARIANTS Memoryless Functional
