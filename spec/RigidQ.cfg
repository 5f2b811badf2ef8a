CONSTANTS
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  SinA <- FSin
  Variant = "none"
  Positions <- QPositions
  MaxPos = 16
CONSTRAINT Near
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Same Length RpyView Inverse2 Identity2 Associative Acts
