SPECIFICATION Spec
CONSTANTS
  Years = {1999}
  Days = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31}
  Minutes = {0, 1, 5, 9, 10, 12, 15, 20, 30, 45, 59}
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
