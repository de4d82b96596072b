SPECIFICATION Spec
CONSTANTS
  Depth = 2
  MaxArity = 3
INVARIANTS Released Erased Pure
PROPERTY Stutter
CHECK_DEADLOCK FALSE
