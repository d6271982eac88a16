SPECIFICATION Spec
CONSTANTS
  V = 4
  TOK = 2
  CAP = 2
  MAXLG = 2
  D = 6
  EMIT = FALSE
VIEW view
INVARIANTS Faithful CurMin Contract UnionIsAll
CHECK_DEADLOCK FALSE
