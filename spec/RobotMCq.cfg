CONSTANTS
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  SinA <- FSin
  Div <- FDiv
  CosPitch <- FCosPitch
  Shapes <- QShapes
  JTypes <- QTypes
  Axes <- QAxes
  Origins <- QOrigins
  Inertials <- QInertials
  Bases <- QBases
  MaxPris = 16
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  Directory PosesCurrent
  TwistIsDerivative RpyAxes BaseColumns BaseCovariant FullTurns JointAxisFixed Attached RotationsProper AddedRigid
  ComIsMean ComOfPoints ComDerivative ComBaseDerivative
  InertiaSymmetric InertiaByOrigin InertiaCovariant
  DistanceDerivative BalanceDerivative
