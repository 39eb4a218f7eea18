SPECIFICATION Spec
CONSTANTS Depth = 16  NOuts = 7  MaxTags = 6
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
