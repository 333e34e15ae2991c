SPECIFICATION Spec
CONSTANT B = 128
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
