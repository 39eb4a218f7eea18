SPECIFICATION Spec
CONSTANTS N = 2  MaxCrash = 1  MaxFault = 1
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
