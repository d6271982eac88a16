SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Bufs = {11}
  MaxV = 2
INVARIANTS Apart CacheApart CacheTrue
PROPERTY OnlyTheTarget
CHECK_DEADLOCK FALSE
