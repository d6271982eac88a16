SPECIFICATION Spec
CONSTANTS
  K = 4
  M = 2
  V = 2
  D = 7
  EMIT = FALSE
VIEW view
INVARIANTS Good RankError Steps MergeSteps Queries
CHECK_DEADLOCK FALSE
