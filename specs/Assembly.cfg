SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2}
  Scales <- QuickScales
  MaxPush = 2
  MaxInner = 1
INVARIANTS Correct Commutes EmptyIsZero OptionsIntact
