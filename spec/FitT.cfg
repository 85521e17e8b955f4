SPECIFICATION Spec
CONSTANTS NMax = 4 XMax = 5 Coefs <- CoefsT FreeT = {0, 1, 3}
INVARIANTS Reproduces Unique Emit
PROPERTY TailIrrelevant
