SPECIFICATION Spec
INVARIANT Accounted
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
