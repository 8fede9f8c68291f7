SPECIFICATION Spec
CONSTANTS NParties = 3 Sids = {1, 2} MaxConns = 6 MaxCalls = 3
INVARIANT Inv
PROPERTY Mono
CHECK_DEADLOCK FALSE
