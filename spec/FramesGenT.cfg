SPECIFICATION Spec
INVARIANT TypeOK
CONSTANTS MaxFull = 3
MaxLen = 4
CHECK_DEADLOCK FALSE
