SPECIFICATION Spec
CONSTANT Odd = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
