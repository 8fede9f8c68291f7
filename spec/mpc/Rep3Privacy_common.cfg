SPECIFICATION Spec
CONSTANTS P = 5
 Own = {0, 1, 3}
 Masks = TRUE
 Common = TRUE
INVARIANTS MulHides VecHides InjHides
CHECK_DEADLOCK FALSE
