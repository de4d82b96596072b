SPECIFICATION Spec
CONSTANTS
  Format = "shc"
  MaxLines = 6
INVARIANTS Agrees
