SPECIFICATION Spec
CONSTANTS
  Format = "igrf"
  MaxLines = 7
INVARIANTS Agrees
