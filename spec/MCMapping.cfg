SPECIFICATION Spec
CONSTANTS MaxTokens = 2
  Pieces <- MCPieces
  Spoken <- MCSpoken
INVARIANTS ReportIsExact Rebuilds Caught
CHECK_DEADLOCK FALSE
