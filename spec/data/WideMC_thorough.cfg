SPECIFICATION Spec
INVARIANT Good
CONSTANT W = 2
CONSTANT Ks = {1, 2, 3, 5, 8}
CHECK_DEADLOCK FALSE
