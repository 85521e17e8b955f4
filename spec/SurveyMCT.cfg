CONSTANTS Inputs <- InputsMCT
 Free = TRUE
 Early = FALSE
SPECIFICATION Spec
INVARIANTS Prescribed OwnSettings CurvesInOrder TableAgrees RegisterFollows
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
