SPECIFICATION Spec
CONSTANTS
  Phases = 3
  MaxWrites = 2
INVARIANTS Specified Hidden Emit
PROPERTY Private
CHECK_DEADLOCK FALSE
