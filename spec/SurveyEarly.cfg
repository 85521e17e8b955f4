CONSTANTS Inputs <- InputsMC
 Free = TRUE
 Early = TRUE
SPECIFICATION Spec
INVARIANTS OwnSettings
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
