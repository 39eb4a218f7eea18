SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2}  MaxLen = 9
INVARIANTS ExactZh ExactJa Grammar Zeros Written
CHECK_DEADLOCK FALSE
