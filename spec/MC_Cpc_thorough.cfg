SPECIFICATION Spec
CONSTANTS
  NC = 5
  W = 2
  D = 9
  EMIT = FALSE
VIEW view
INVARIANTS Faithful Shape UnionExact Contract
CHECK_DEADLOCK FALSE
