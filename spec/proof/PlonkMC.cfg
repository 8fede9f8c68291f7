CONSTANTS NC = 3
 NCh = 3
SPECIFICATION Spec
INVARIANTS Perms Closed Vanishes Complete GateSound CopySound
CHECK_DEADLOCK FALSE
