CONSTANTS
  Variant = "none"
  Names = {"a", "b", "c"}
  MaxJoints = 2
  MaxAdds = 1
VIEW View
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  NothingLeft
  NoGarbage
  WholeModels
