CONSTANTS
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  SinA <- FSin
  Variant = "none"
  MaxLinks = 3
  MaxJoints = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Decides Ends1 SameTree Rooted
PROPERTY Progress
