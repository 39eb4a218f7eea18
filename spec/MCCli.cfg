SPECIFICATION Spec
CONSTANTS MaxItems = 2  Random = FALSE  Small = TRUE
INVARIANTS Independent LastWins NoForeign OneInput Kind
CHECK_DEADLOCK FALSE
