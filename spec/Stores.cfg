CONSTANTS
  Variant = "none"
  Vals = {1, 2}
  MaxCap = 3
  MaxSlots = 3
VIEW View
SPECIFICATION StackSpec
CHECK_DEADLOCK FALSE
INVARIANTS
  InBounds
PROPERTY Refines
