SPECIFICATION Spec
CONSTANTS P = {1, 2} MaxPts = 3 MaxLen = 5 Share = 30
INVARIANT MemoryRight
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
