SPECIFICATION Spec
CONSTANTS
  Length = 4
INVARIANTS Closed Separate
CHECK_DEADLOCK FALSE
