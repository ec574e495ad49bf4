SPECIFICATION Spec
CONSTANTS MaxX = 3 MaxC = 2 N = 3
INVARIANT Coherent
CHECK_DEADLOCK FALSE
