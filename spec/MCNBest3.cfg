SPECIFICATION Spec
CONSTANTS NTags = 3  NOuts = 2  Weights = {0, 1, 2}  None = 9
INVARIANTS AlwaysBest AllInTheEnd
CHECK_DEADLOCK FALSE
