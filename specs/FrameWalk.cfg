SPECIFICATION Spec
CONSTANTS
  Latitudes <- QuickLat
  Longitudes <- QuickLon
  Vectors <- QuickVec
  MaxSteps = 2
INVARIANTS SamePhysical SameNorm Returned Orthonormal
