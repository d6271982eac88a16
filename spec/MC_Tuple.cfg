SPECIFICATION Spec
CONSTANTS
  K = 2
  CAP = 3
  NH = 4
  D = 5
  EMIT = FALSE
  CLONE = TRUE
VIEW view
INVARIANTS Isolated Contract UnionAlways InterAlways Bounded
CHECK_DEADLOCK FALSE
