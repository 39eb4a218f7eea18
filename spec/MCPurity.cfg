SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}  Ops = {"plain", "nbest", "badn"}  Texts = {1, 2}  MaxCalls = 4  Private = TRUE
INVARIANT Pure
VIEW View
CHECK_DEADLOCK FALSE
