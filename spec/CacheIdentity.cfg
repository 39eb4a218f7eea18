SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}  Damages = {1, 2}  Depth = 9
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
