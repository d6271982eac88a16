SPECIFICATION Spec
CONSTANTS
  Lens = {1, 2, 5}
  MaxSecs = 5
  Values = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 21, 255}
INVARIANTS NeverPast Verdict Foreign
PROPERTY Ends
CHECK_DEADLOCK FALSE
