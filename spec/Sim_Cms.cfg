SPECIFICATION Spec
CONSTANTS
  NB = 3
  NH = 2
  P = 4
  WS = {0, 2, 3, 7}
  D = 16
  EMIT = TRUE
INVARIANTS Good SameAsOneStream Emit
CHECK_DEADLOCK FALSE
