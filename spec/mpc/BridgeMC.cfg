SPECIFICATION Spec
CONSTANTS P = 5
INVARIANTS LocalRight AddRight Hides
CHECK_DEADLOCK FALSE
