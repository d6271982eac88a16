SPECIFICATION Spec
CONSTANTS
  K = 2
  V = 3
  T = "hra"
  BULK = 4
  D = 24
  EMIT = TRUE
INVARIANTS Good Protected Emit
CHECK_DEADLOCK FALSE
