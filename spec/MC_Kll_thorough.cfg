SPECIFICATION Spec
CONSTANTS
  K = 4
  M = 2
  V = 3
  D = 9
  EMIT = FALSE
VIEW view
INVARIANTS Good RankError Steps MergeSteps Queries
CHECK_DEADLOCK FALSE
