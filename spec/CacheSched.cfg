SPECIFICATION SSpec
CONSTANTS N = 3  MaxCrash = 0  MaxFault = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
