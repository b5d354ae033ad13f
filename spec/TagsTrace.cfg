SPECIFICATION Spec
CONSTANT NMax = 5
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
