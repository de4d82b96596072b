SPECIFICATION Spec
CONSTANTS
  Times = {1, 2, 3, 4}
  MaxProducts = 3
  Kinds = {1, 2}
INVARIANTS AllPairs Chronological Complete Union Grouping
