SPECIFICATION Spec
CONSTANTS N = 4 Ids = {"a", "b"} Ts = {0, 1}
INVARIANTS Right Early
CHECK_DEADLOCK FALSE
