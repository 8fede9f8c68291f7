SPECIFICATION Spec
CONSTANTS P = 5
 Deep = 1
INVARIANT NoLeak Right Clean Tagged
CHECK_DEADLOCK FALSE
