SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3}
  MaxDim = 3
  MaxDim3 = 2
INVARIANTS InBounds NotTruncated Symmetric ScalarNeutral Slices Agree
