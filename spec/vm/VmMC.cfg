SPECIFICATION Spec
CONSTANTS P = 5
 Deep = 0
INVARIANT NoLeak Right Clean Tagged
CHECK_DEADLOCK FALSE
