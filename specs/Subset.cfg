SPECIFICATION Spec
CONSTANTS
  TopDegree = 60
  Span = 4
INVARIANTS Bijection Correct Partition
