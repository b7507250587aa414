SPECIFICATION Spec
INVARIANT TypeOK
CONSTANTS MaxFull = 2
MaxLen = 3
CHECK_DEADLOCK FALSE
