SPECIFICATION Spec
INVARIANTS PoleExact RealOnAxis VanishesWithStep
CONSTANT Comp <- CompMC
