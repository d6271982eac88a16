SPECIFICATION Spec
CONSTANTS
  CAP = 4
  NH = 2
  P = 2
  D = 4
  EMIT = FALSE
VIEW view
INVARIANTS Good SameAsOneStream Algebra
CHECK_DEADLOCK FALSE
