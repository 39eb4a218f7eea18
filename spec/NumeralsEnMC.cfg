SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2}  MaxLen = 9
INVARIANTS Exact OneReading Telling Ordinals Years
CHECK_DEADLOCK FALSE
