SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Indices <- QuickIndices
INVARIANTS WrittenOnce Pointwise
