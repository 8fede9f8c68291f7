SPECIFICATION Spec
CONSTANTS P = 7
 N = 5
 T = 2
 Secrets = {0, 3}
 Coefs = {1}
INVARIANTS Correct OpensRight NoStuck
CHECK_DEADLOCK FALSE
