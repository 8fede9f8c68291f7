SPECIFICATION Spec
CONSTANTS NRows = 3
 NZ = 2
 NT = 2
 Other = {0, 1, 5, 16}
INVARIANTS Complete Bound Sound Hiding
CHECK_DEADLOCK FALSE
