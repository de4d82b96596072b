SPECIFICATION Spec
CONSTANTS
  Policy = "fresh"
  MaxLen = 5
  Keys = {1, 2}
INVARIANTS Intact Own Export
