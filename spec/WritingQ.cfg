CONSTANTS
  Variant = "none"
  Every = 100
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  SinA <- FSin
  Types <- QTypes
  Origins <- QOrigins
  AxisForms <- QAxes
  LowerUpper <- QLowerUpper
  Seconds <- QSeconds
  Inertials <- QInertials
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  StillValid SameMeaning ReadRight FixedPoint
