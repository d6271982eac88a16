SPECIFICATION Spec
CONSTANTS
  NK = 2
INVARIANTS OneContent NoOtherFormat CutIsNone
CHECK_DEADLOCK FALSE
