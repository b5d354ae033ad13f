SPECIFICATION Spec
CONSTANTS N = 5 Ids = {"a", "b"} Ts = {0, 1}
INVARIANTS Right Early
CHECK_DEADLOCK FALSE
