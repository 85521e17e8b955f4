SPECIFICATION Spec
CONSTANTS NMax = 3 XMax = 4 Coefs <- CoefsQ FreeT = {0, 1, 3}
INVARIANTS Reproduces Unique Emit
PROPERTY TailIrrelevant
