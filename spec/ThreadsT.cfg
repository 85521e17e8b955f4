SPECIFICATION Spec
CONSTANTS N = 3 Phases = 3 Free = 5
INVARIANTS Pure
