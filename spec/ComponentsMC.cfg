SPECIFICATION Spec
CONSTANTS
  Years = {1000, 1001, 1011, 1200, 1999, 2000, 2008, 2024, 9999}
  EveryDay = FALSE
  Gen = FALSE
INVARIANTS Told OnlyOne WriteBack DayFirst
CHECK_DEADLOCK FALSE
