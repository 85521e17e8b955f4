SPECIFICATION Spec
CONSTANTS DMax = 3 N = 6
INVARIANTS BestIsFirstMaximum Unique Emit
