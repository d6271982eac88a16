SPECIFICATION Spec
CONSTANTS
  P = 5
  CMAX = 3
  LGS = {2}
  D = 24
  EMIT = TRUE
INVARIANTS Good Lists Emit
CHECK_DEADLOCK FALSE
