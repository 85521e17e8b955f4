SPECIFICATION Spec
INVARIANT Shared
CONSTANT MaxSteps = 40
