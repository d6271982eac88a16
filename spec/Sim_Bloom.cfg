SPECIFICATION Spec
CONSTANTS
  CAP = 4
  NH = 2
  P = 3
  D = 16
  EMIT = TRUE
INVARIANTS Good SameAsOneStream Algebra Emit
CHECK_DEADLOCK FALSE
