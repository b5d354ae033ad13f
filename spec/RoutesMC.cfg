SPECIFICATION Spec
CONSTANTS Problems = 700  Width = 4  Queries = 8
INVARIANTS Truthful Sound Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
