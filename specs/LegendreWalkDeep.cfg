SPECIFICATION Spec
CONSTANTS
  MaxDegree = 14
  Angles <- SomeAngles
INVARIANTS Positioned Complete Addition Bounded
CHECK_DEADLOCK FALSE
