SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Steps = {0, 1, 2, 3}
INVARIANTS Ordered
