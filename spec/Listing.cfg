SPECIFICATION Spec
INVARIANT Counts
CHECK_DEADLOCK FALSE
