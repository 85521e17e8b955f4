SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS
  RealsAreReal
  Emit
CHECK_DEADLOCK FALSE
