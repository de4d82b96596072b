SPECIFICATION Spec
CONSTANTS
  Length = 3
INVARIANTS Closed Separate
CHECK_DEADLOCK FALSE
