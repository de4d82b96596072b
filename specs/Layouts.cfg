SPECIFICATION Spec
CONSTANTS
  Shape <- S
  MaxStep = 2
  MaxPad = 1
  MaxOps = 6
INVARIANTS Inside OneToOne Export
