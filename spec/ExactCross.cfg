CONSTANTS N = 3  Fixed = TRUE
INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
