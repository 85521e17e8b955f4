SPECIFICATION Spec
INVARIANTS TypeOK Faithful Honored Counterpart Replacement RegOnly Reach Untouched
PROPERTY Pure
CHECK_DEADLOCK FALSE
