SPECIFICATION Spec
CONSTANTS
  Format = "wmm"
  MaxLines = 5
INVARIANTS Agrees
