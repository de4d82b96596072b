SPECIFICATION Spec
CONSTANTS MaxParts = 3
INVARIANTS SumOfParts FastWhenPossible
