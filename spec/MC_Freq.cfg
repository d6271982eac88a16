SPECIFICATION Spec
CONSTANTS
  P = 5
  CMAX = 2
  LGS = {2}
  D = 5
  EMIT = FALSE
VIEW view
INVARIANTS Good Lists Steps 
CHECK_DEADLOCK FALSE
