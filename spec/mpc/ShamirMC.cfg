SPECIFICATION Spec
CONSTANTS P = 5
 N = 3
 T = 1
 Secrets = {0, 1, 3}
 Coefs = {0, 2}
INVARIANTS Correct OpensRight NoStuck
CHECK_DEADLOCK FALSE
