SPECIFICATION Spec
CONSTANTS
  NC = 5
  W = 2
  D = 16
  EMIT = TRUE
INVARIANTS Faithful Shape UnionExact Contract Emit
CHECK_DEADLOCK FALSE
