CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Zero <- IZero
  One <- IOne
  CosA <- INone
  SinA <- INone
  Variant = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Composes Norms Proper Inverts Turns Double FromRpy ToRpy
