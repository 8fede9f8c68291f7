SPECIFICATION Spec
CONSTANTS
  NG = 2000
  NP = 12000
INVARIANTS GOne GChange GLength PMade PQuot PBatchU PBatchV PLength PPub
CHECK_DEADLOCK FALSE
