SPECIFICATION Spec
CONSTANTS
  Ks = {2, 3}
  MK = 3
  D = 5
  EMIT = FALSE
VIEW view
INVARIANTS Sketches Union
CHECK_DEADLOCK FALSE
