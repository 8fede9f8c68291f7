SPECIFICATION Spec
CONSTANTS P = 5
 Owns = {0, 1, 3}
 Masks = FALSE
INVARIANTS MulHides KingSeesUniform InvHides MulOpenHides
CHECK_DEADLOCK FALSE
