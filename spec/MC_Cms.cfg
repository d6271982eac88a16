SPECIFICATION Spec
CONSTANTS
  NB = 2
  NH = 2
  P = 3
  WS = {1, 3, 5}
  D = 3
  EMIT = FALSE
VIEW view
INVARIANTS Good SameAsOneStream
CHECK_DEADLOCK FALSE
