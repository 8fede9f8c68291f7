SPECIFICATION Spec
CONSTANTS
  NI = 2
  NG = 3
  Kinds = {"EQ", "EQW", "INV", "AND", "XOR"}
INVARIANTS Confluent NotStuck LevelsSound
CHECK_DEADLOCK FALSE
