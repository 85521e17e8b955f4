SPECIFICATION Spec
INVARIANTS Confluent Exists Commute Isotropic EmitIso
CHECK_DEADLOCK FALSE
