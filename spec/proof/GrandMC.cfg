CONSTANTS
  P = 5
  L = 2
  Own = TRUE
SPECIFICATION Spec
INVARIANT Right
INVARIANT Hidden
CHECK_DEADLOCK FALSE
