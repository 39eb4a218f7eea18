SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1}  MaxLen = 12
INVARIANTS Exact OneReading Telling Ordinals Years Emit
CHECK_DEADLOCK FALSE
