SPECIFICATION Spec
CONSTANTS
  Top = 400
INVARIANTS Within Stable Borders SomeRoom
CHECK_DEADLOCK FALSE
