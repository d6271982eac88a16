SPECIFICATION Spec
CONSTANTS
  V = 4
  TOK = 2
  CAP = 2
  MAXLG = 2
  D = 16
  EMIT = TRUE
INVARIANTS Faithful CurMin Contract UnionIsAll Emit
CHECK_DEADLOCK FALSE
