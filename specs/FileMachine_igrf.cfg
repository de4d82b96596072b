SPECIFICATION Spec
CONSTANTS
  Format = "igrf"
  MaxLines = 6
INVARIANTS Agrees
