SPECIFICATION Spec
CONSTANTS Problems = 8000  Width = 6  Queries = 16
INVARIANTS Truthful Sound Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
