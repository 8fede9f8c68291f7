CONSTANTS
  P = 5
  L = 3
  Own = TRUE
SPECIFICATION Spec
INVARIANT Right
INVARIANT Hidden
CHECK_DEADLOCK FALSE
