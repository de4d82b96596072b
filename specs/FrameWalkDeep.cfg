SPECIFICATION Spec
CONSTANTS
  Latitudes <- DeepLat
  Longitudes <- DeepLon
  Vectors <- DeepVec
  MaxSteps = 3
INVARIANTS SamePhysical SameNorm Returned Orthonormal
