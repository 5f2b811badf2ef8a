CONSTANTS
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  SinA <- FSin
  Div <- FDiv
  CosPitch <- FCosPitch
  Shapes <- TShapes
  JTypes <- TTypes
  Axes <- TAxes
  Origins <- TOrigins
  Inertials <- TInertials
  Bases <- TBases
  MaxPris = 16
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  Directory PosesCurrent
  TwistIsDerivative RpyAxes BaseColumns BaseCovariant FullTurns JointAxisFixed Attached RotationsProper AddedRigid
  ComIsMean ComOfPoints ComDerivative ComBaseDerivative
  InertiaSymmetric InertiaByOrigin InertiaCovariant
  DistanceDerivative BalanceDerivative
