SPECIFICATION Spec
CONSTANTS
  K = 3
  B = 3
  V = 3
  D = 16
  EMIT = TRUE
INVARIANTS Good Emit
CHECK_DEADLOCK FALSE
