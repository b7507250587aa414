SPECIFICATION Spec
INVARIANT NeverWorse
