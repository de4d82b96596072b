SPECIFICATION Spec
CONSTANTS
  Policy = "fresh"
  MaxLen = 7
  Keys = {1, 2}
INVARIANTS Intact Own Export
