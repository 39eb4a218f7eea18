SPECIFICATION Spec
CONSTANTS MaxItems = 1  Random = FALSE  Small = FALSE
INVARIANTS Emit Independent LastWins NoForeign OneInput Kind
CHECK_DEADLOCK FALSE
