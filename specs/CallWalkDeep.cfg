SPECIFICATION Spec
CONSTANTS
  Depth = 3
  MaxArity = 4
INVARIANTS Released Erased Pure
PROPERTY Stutter
CHECK_DEADLOCK FALSE
