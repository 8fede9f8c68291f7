CONSTANTS NC = 6
 NCh = 5
SPECIFICATION Spec
INVARIANTS Perms Closed Vanishes Complete GateSound CopySound
CHECK_DEADLOCK FALSE
