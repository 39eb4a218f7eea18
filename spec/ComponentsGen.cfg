SPECIFICATION Spec
CONSTANTS
  Years = {1000, 2008, 2024}
  EveryDay = FALSE
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
