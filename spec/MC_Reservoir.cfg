SPECIFICATION Spec
CONSTANTS
  Ks = {2, 3}
  MK = 2
  D = 4
  EMIT = FALSE
VIEW view
INVARIANTS Sketches Union
CHECK_DEADLOCK FALSE
