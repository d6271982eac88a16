SPECIFICATION Spec
CONSTANTS
  CAP = 4
  NH = 2
  P = 3
  D = 5
  EMIT = FALSE
VIEW view
INVARIANTS Good SameAsOneStream Algebra
CHECK_DEADLOCK FALSE
