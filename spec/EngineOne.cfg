CONSTANTS
  Add <- FAdd
  Sub <- FSub
  Mul <- FMul
  Zero <- FZero
  One <- FOne
  CosA <- FCos
  SinA <- FSin
  Variant = "none"
  Handles <- AllOnes
  Docs <- OneDocs
  Values = {0, 1}
  Bases <- OneBases
  MaxAdds = 1
  AddNames <- OneNames
  Copies = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  Directory PosesCurrent Sized Coherent StackFits Relevance ReadBack MemoSound Separate
PROPERTY OnlyGrows
