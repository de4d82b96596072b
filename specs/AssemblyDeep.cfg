SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2, 3}
  Scales <- DeepScales
  MaxPush = 2
  MaxInner = 1
INVARIANTS Correct Commutes EmptyIsZero OptionsIntact
