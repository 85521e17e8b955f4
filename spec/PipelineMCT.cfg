CONSTANTS Inputs <- InputsMC
 Free = TRUE
 Flat = FALSE
SPECIFICATION Spec
INVARIANTS Prescribed WhichIsDeconfined Consistent FitsBoundary ColdIsZero 
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
