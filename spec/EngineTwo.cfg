CONSTANTS
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  SinA <- FSin
  Variant = "none"
  Handles <- TwoHandles
  Docs <- TwoDocs
  Values = {0, 1}
  Bases <- TwoBases
  MaxAdds = 1
  AddNames <- OneNames
  Copies = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  Directory PosesCurrent Sized Coherent StackFits Relevance ReadBack MemoSound Separate
PROPERTY OnlyGrows
