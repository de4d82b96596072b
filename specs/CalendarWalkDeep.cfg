SPECIFICATION Spec
CONSTANTS
  FirstYear <- First
  LastYear = 10100
  Windows <- WDeep
INVARIANTS StartCounted Extracted Inside YearLength
