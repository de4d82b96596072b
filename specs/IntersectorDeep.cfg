SPECIFICATION Spec
CONSTANTS
  Ends <- MCEndsDeep
  MaxLen = 4
INVARIANTS Sound CompleteMerge Covered
