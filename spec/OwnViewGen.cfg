SPECIFICATION Spec
INVARIANT Valid
