SPECIFICATION Spec
CONSTANTS
  K = 2
  V = 3
  T = "hra"
  BULK = 4
  D = 6
  EMIT = FALSE
VIEW view
INVARIANTS Good Protected Steps MergeSteps Queries
CHECK_DEADLOCK FALSE
