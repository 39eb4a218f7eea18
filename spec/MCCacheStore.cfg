SPECIFICATION Spec
CONSTANTS N = 2  MaxCrash = 2  MaxFault = 1
INVARIANTS TypeOK OneAtATime NoHalf Survives InPlace Outcomes BuildsOnce Swept NoError
CHECK_DEADLOCK FALSE
