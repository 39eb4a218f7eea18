SPECIFICATION Spec
CONSTANTS MaxChunks = 6
 Emit = FALSE
INVARIANTS RoundTrip Lossless Idempotent SpansExact SourceSpans NoDuplicateKeys EmitInv
CHECK_DEADLOCK FALSE
