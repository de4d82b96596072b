SPECIFICATION Spec
CONSTANTS
  Ends <- MCEnds
  Times <- MCTimes
  MaxParts = 3
INVARIANTS TableSorted TableOwned Evaluated Complete NoHole RealHole
PROPERTY Monotone
