SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Steps = {0, 1, 2, 4}
INVARIANTS Ordered
