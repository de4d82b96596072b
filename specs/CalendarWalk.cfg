SPECIFICATION Spec
CONSTANTS
  FirstYear <- First
  LastYear = 10100
  Windows <- W
INVARIANTS StartCounted Extracted Inside YearLength
