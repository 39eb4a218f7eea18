SPECIFICATION Spec
CONSTANTS Ids = {1, 2}  Damages = {1}  Depth = 5
INVARIANTS OneName OwnOnly
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
