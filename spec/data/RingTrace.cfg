SPECIFICATION Spec
INVARIANT Report
POSTCONDITION Consumed
CONSTANT W = 8
CHECK_DEADLOCK FALSE
