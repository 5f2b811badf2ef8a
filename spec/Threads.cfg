CONSTANTS
  Variant = "none"
  Threads = {1, 2}
  Links = 3
  MaxCalls = 3
  Together = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Alone Bounded MemoRight NoWaiting
