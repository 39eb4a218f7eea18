SPECIFICATION Spec
CONSTANTS
  Years = {1000, 1066, 1100, 1905, 1990, 2000, 2005, 2012}
  Days = {1, 2, 3, 5, 12, 20, 21, 31}
  Minutes = {0, 1, 5, 10, 20, 25, 30, 45, 59}
  Gen = FALSE
INVARIANTS Told OnlyOne
CHECK_DEADLOCK FALSE
