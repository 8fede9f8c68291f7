SPECIFICATION Spec
CONSTANTS
  NI = 1
  NG = 3
  Kinds = {"EQ", "INV", "AND", "XOR"}
INVARIANTS Confluent NotStuck LevelsSound
CHECK_DEADLOCK FALSE
