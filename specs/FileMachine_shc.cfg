SPECIFICATION Spec
CONSTANTS
  Format = "shc"
  MaxLines = 5
INVARIANTS Agrees
