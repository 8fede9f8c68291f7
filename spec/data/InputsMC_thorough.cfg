SPECIFICATION Spec
CONSTANTS
  P = 2
  NP = 3
INVARIANTS Refusal Union Positions
CHECK_DEADLOCK FALSE
