CONSTANTS
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  Div <- FDiv
  CosPitch <- FCosPitch
  SinA <- FSin
  Variant = "none"
  D <- OneDoc
  Calls <- OneCalls
  Sets <- OneSets
  Misfits <- OneMisfits
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  Directory PosesCurrent ReadBack Coherent
PROPERTY Answered Conventions
