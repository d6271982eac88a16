SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2, 3}
  Bufs = {11}
  MaxV = 1
INVARIANTS Apart CacheApart CacheTrue
PROPERTY OnlyTheTarget
CHECK_DEADLOCK FALSE
