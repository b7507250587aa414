SPECIFICATION Spec
INVARIANT Sums
