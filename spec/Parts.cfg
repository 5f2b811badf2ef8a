CONSTANTS
  Variant = "none"
  Kinds = {"limit", "dynamics", "safety", "calibration", "mimic", "mesh", "origin"}
  Rounds = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Declared
