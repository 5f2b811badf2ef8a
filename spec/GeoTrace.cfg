CONSTANTS
  Add <- RAdd
  Sub <- RSub
  Mul <- RMul
  Zero <- RZero
  One <- ROne
  CosA <- RCos
  SinA <- RSin
  Div <- RDiv
  CosPitch <- RCosPitch
SPECIFICATION GeoSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
