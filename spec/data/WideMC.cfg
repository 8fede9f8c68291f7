SPECIFICATION Spec
INVARIANT Good
CONSTANT W = 3
CONSTANT Ks = {1, 3, 4, 6}
CHECK_DEADLOCK FALSE
