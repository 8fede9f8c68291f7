SPECIFICATION Spec
CONSTANTS P = 5
 Own = {0, 1, 3}
 Masks = TRUE
 Common = FALSE
INVARIANTS MulHides VecHides InjHides
CHECK_DEADLOCK FALSE
