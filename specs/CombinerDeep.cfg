SPECIFICATION Spec
CONSTANTS MaxParts = 4
INVARIANTS SumOfParts FastWhenPossible
