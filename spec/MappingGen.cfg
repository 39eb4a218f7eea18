SPECIFICATION Spec
CONSTANTS MaxTokens = 5
  Pieces <- GenPieces
  Spoken <- GenSpoken
INVARIANT Emit
CHECK_DEADLOCK FALSE
