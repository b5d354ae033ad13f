SPECIFICATION Spec
CONSTANTS MaxV = 3 MaxE = 3 MaxLen = 9 TheKinds = {"dir"}
INVARIANT Inv
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
