SPECIFICATION Spec
CONSTANTS
  Format = "emm"
  MaxLines = 7
INVARIANTS Agrees
