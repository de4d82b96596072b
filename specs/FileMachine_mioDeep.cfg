SPECIFICATION Spec
CONSTANTS
  Format = "mio"
  MaxLines = 7
INVARIANTS Agrees
