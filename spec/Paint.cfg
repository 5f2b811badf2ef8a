CONSTANTS
  Variant = "none"
  MaxFirst = 2
  MaxSecond = 1
  Rounds = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Worn Table
