CONSTANTS Inputs <- InputsRun
 Free = FALSE
 Early = FALSE
SPECIFICATION Spec
INVARIANTS Prescribed OwnSettings CurvesInOrder TableAgrees RegisterFollows Emit
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
