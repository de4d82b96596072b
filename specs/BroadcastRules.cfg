SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3}
  MaxDim = 2
  MaxDim3 = 1
INVARIANTS InBounds NotTruncated Symmetric ScalarNeutral Slices Agree
