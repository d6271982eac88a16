SPECIFICATION Spec
CONSTANTS
  NB = 2
  NH = 2
  P = 3
  WS = {1, 2, 4}
  D = 4
  EMIT = FALSE
VIEW view
INVARIANTS Good SameAsOneStream
CHECK_DEADLOCK FALSE
