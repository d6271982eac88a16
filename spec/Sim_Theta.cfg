SPECIFICATION Spec
CONSTANTS
  K = 2
  CAP = 3
  NH = 7
  D = 16
  EMIT = TRUE
INVARIANTS Faithful Contract UnionAlways InterAlways Emit
CHECK_DEADLOCK FALSE
