SPECIFICATION Spec
CONSTANTS PMax = 15 MMax = 15
INVARIANTS Shell FermiMomentum Emit
