SPECIFICATION Spec
CONSTANTS
  K = 2
  CAP = 3
  NH = 5
  D = 8
  EMIT = FALSE
VIEW view
INVARIANTS TypeOK Faithful ExactUntilFull Bounded Contract UnionAlways InterAlways OrderBlind
PROPERTY ThetaOnlyFalls
CHECK_DEADLOCK FALSE
