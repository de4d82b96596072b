SPECIFICATION Spec
CONSTANTS
  Files = {1, 2, 3}
  Corrupt = {3}
  Times <- QuickTimes
  Alts = {0, 1}
  MaxLen = 2
  MaxCalls = 2
INVARIANTS Pointwise
