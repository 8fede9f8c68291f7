SPECIFICATION Spec
CONSTANTS P = 5
 Vals = {0, 2, 3}
 Protos = {"mul", "inject", "r23"}
INVARIANTS Correct NoStuck
CHECK_DEADLOCK FALSE
