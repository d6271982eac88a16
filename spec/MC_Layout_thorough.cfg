SPECIFICATION Spec
CONSTANTS
  NK = 3
INVARIANTS OneContent NoOtherFormat CutIsNone
CHECK_DEADLOCK FALSE
