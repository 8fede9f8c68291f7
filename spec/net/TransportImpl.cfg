SPECIFICATION Spec
CONSTANTS Cap = 2 Hdr = 2 MaxSend = 2 MaxLen = 2 Limit = 1 AckAbort = TRUE
INVARIANT Inv
PROPERTIES AbsSpec Delivered CutSeen FlushReturns
CHECK_DEADLOCK FALSE
