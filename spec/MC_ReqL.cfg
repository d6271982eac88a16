SPECIFICATION Spec
CONSTANTS
  K = 2
  V = 3
  T = "lra"
  BULK = 4
  D = 5
  EMIT = FALSE
VIEW view
INVARIANTS Good Protected Steps MergeSteps Queries
CHECK_DEADLOCK FALSE
