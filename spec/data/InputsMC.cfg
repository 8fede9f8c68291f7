SPECIFICATION Spec
CONSTANTS
  P = 2
  NP = 2
INVARIANTS Refusal Union Positions
CHECK_DEADLOCK FALSE
