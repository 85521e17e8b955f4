SPECIFICATION Spec
INVARIANTS
  HasLeast
  SameValue
  Emit
CHECK_DEADLOCK FALSE
