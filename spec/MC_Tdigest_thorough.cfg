SPECIFICATION Spec
CONSTANTS
  K = 3
  B = 3
  V = 3
  D = 9
  EMIT = FALSE
VIEW view
INVARIANTS Good Steps Queries
CHECK_DEADLOCK FALSE
