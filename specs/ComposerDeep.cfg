SPECIFICATION Spec
CONSTANTS
  Ends <- MCEndsDeep
  Times <- MCTimesDeep
  MaxParts = 4
INVARIANTS TableSorted TableOwned Evaluated Complete NoHole RealHole
PROPERTY Monotone
