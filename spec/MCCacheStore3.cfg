SPECIFICATION Spec
CONSTANTS N = 3  MaxCrash = 0  MaxFault = 0
INVARIANTS TypeOK OneAtATime NoHalf Survives InPlace Outcomes BuildsOnce Swept NoError
CHECK_DEADLOCK FALSE
