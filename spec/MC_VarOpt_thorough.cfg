SPECIFICATION Spec
CONSTANTS
  Ks = {1, 2, 3}
  MKs = {1, 2, 3}
  Ws = {12, 24, 60}
  D = 5
  EMIT = FALSE
VIEW view
INVARIANTS Sketches Gadget Results
CHECK_DEADLOCK FALSE
