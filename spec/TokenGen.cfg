SPECIFICATION Spec
CONSTANTS MaxChunks = 11
 Emit = TRUE
INVARIANTS EmitInv
VIEW Control
CHECK_DEADLOCK FALSE
