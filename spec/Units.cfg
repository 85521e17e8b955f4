SPECIFICATION Spec
CONSTANTS
  KMax = 3
INVARIANTS
  Covariant
  DressingsHaveNone
  Emit
CHECK_DEADLOCK FALSE
