SPECIFICATION Spec
CONSTANTS DMax = 4 N = 7
INVARIANTS BestIsFirstMaximum Unique Emit
