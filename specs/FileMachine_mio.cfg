SPECIFICATION Spec
CONSTANTS
  Format = "mio"
  MaxLines = 6
INVARIANTS Agrees
