SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Indices <- DeepIndices
INVARIANTS WrittenOnce Pointwise
