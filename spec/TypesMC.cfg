SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxA = 4 MaxArrA = 2 MaxN = 3
CHECK_DEADLOCK FALSE
