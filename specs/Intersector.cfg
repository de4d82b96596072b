SPECIFICATION Spec
CONSTANTS
  Ends <- MCEnds
  MaxLen = 3
INVARIANTS Sound CompleteMerge Covered
