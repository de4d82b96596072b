SPECIFICATION Spec
CONSTANTS
  TopDegree = 150
  Span = 6
INVARIANTS Bijection Correct Partition
