SPECIFICATION Spec
CONSTANTS
  Top = 130
INVARIANTS Within Stable Borders SomeRoom
CHECK_DEADLOCK FALSE
