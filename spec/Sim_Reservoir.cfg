SPECIFICATION Spec
CONSTANTS
  Ks = {2, 3, 5}
  MK = 3
  D = 24
  EMIT = TRUE
INVARIANTS Sketches Union Emit
CHECK_DEADLOCK FALSE
