SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Faithful Strict
CHECK_DEADLOCK FALSE
