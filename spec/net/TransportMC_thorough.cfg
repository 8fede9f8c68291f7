SPECIFICATION Spec
CONSTANTS NP = 2 NN = 1 MaxSend = 2 Senders = {0, 1} Lens = {0, 1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
