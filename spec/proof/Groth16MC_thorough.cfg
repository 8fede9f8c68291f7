SPECIFICATION Spec
CONSTANTS NRows = 4
 NZ = 3
 NT = 2
 Other = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
INVARIANTS Complete Bound Sound Hiding
CHECK_DEADLOCK FALSE
