CONSTANTS Inputs <- InputsMC
 Free = TRUE
 Flat = TRUE
SPECIFICATION Spec
INVARIANTS Prescribed WhichIsDeconfined Consistent FitsBoundary ColdIsZero 
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
