SPECIFICATION Spec
CONSTANTS N = 10 Phases = 3 Free = 0
INVARIANTS Pure WalkExposes Emit
