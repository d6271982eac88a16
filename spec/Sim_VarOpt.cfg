SPECIFICATION Spec
CONSTANTS
  Ks = {1, 2, 3, 4}
  MKs = {2, 3, 4}
  Ws = {12, 24, 36, 60, 240}
  D = 20
  EMIT = TRUE
INVARIANTS Sketches Gadget Results Emit
CHECK_DEADLOCK FALSE
