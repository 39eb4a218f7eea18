SPECIFICATION Spec
CONSTANTS Spaced = FALSE  Depth = 6
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
