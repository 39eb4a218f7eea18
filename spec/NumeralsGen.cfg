SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1}  MaxLen = 12
INVARIANTS ExactZh ExactJa Grammar Zeros Written Emit
CHECK_DEADLOCK FALSE
