SPECIFICATION Spec
CONSTANTS
  Starts <- DeepStarts
  Years = 500
INVARIANTS Consistent
