SPECIFICATION Spec
INVARIANT Coherent
