SPECIFICATION Spec
CONSTANTS
  K = 4
  M = 2
  V = 3
  D = 24
  EMIT = TRUE
INVARIANTS Good RankError Emit
CHECK_DEADLOCK FALSE
