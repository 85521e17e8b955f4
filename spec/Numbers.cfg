SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS
  RealsAreReal
  Emit
CHECK_DEADLOCK FALSE
