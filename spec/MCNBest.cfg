SPECIFICATION Spec
CONSTANTS NTags = 2  NOuts = 3  Weights = {0, 1, 2}  None = 9
INVARIANTS AlwaysBest AllInTheEnd
CHECK_DEADLOCK FALSE
