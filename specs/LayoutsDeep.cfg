SPECIFICATION Spec
CONSTANTS
  Shape <- S
  MaxStep = 3
  MaxPad = 2
  MaxOps = 7
INVARIANTS Inside OneToOne Export
