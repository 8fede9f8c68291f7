SPECIFICATION Spec
CONSTANTS P = 3
 Vals = {0, 1, 2}
 Protos = {"mul", "inject", "r23"}
INVARIANTS Correct NoStuck
CHECK_DEADLOCK FALSE
