SPECIFICATION Spec
INVARIANTS Confluent Diamond
PROPERTY Grows
CHECK_DEADLOCK FALSE
