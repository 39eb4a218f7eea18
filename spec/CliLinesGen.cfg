SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS NoEnd Count AllElse Agree Emit
CHECK_DEADLOCK FALSE
