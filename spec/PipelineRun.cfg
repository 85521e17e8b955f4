CONSTANTS Inputs <- InputsRun
 Free = FALSE
 Flat = FALSE
SPECIFICATION Spec
INVARIANTS Prescribed WhichIsDeconfined Consistent FitsBoundary Emit
CHECK_DEADLOCK FALSE
