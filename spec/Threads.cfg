SPECIFICATION Spec
CONSTANTS N = 3 Phases = 3 Free = 4
INVARIANTS Pure
