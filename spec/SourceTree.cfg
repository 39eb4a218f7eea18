SPECIFICATION Spec
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
