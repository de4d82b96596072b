SPECIFICATION Spec
CONSTANTS
  Format = "emm"
  MaxLines = 8
INVARIANTS Agrees
