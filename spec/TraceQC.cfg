SPECIFICATION Spec
CONSTANT Base = 10000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
