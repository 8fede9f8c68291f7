SPECIFICATION Spec
CONSTANTS
  NG = 40
  NP = 400
INVARIANTS GOne GChange GLength PMade PQuot PBatchU PBatchV PLength PPub
CHECK_DEADLOCK FALSE
