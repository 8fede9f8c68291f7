SPECIFICATION Spec
INVARIANTS Known Shape
CHECK_DEADLOCK FALSE
