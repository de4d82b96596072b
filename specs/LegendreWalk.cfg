SPECIFICATION Spec
CONSTANTS
  MaxDegree = 6
  Angles <- SomeAngles
INVARIANTS Positioned Complete Addition Bounded
CHECK_DEADLOCK FALSE
