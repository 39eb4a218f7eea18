SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
  Ops = {"plain", "plain2", "nbest", "tag", "tagn", "map", "mapid", "mapn", "verb", "badn", "badtoken", "badtype", "empty", "scribble", "parser", "fresh"}
  Texts = {1, 2, 3}  MaxCalls = 16  Private = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
