SPECIFICATION Spec
CONSTANTS
  Files = {1, 2, 3}
  Corrupt = {3}
  Times <- DeepTimes
  Alts = {0, 1}
  MaxLen = 1
  MaxCalls = 3
INVARIANTS Pointwise
