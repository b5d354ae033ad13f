SPECIFICATION Spec
CONSTANTS Problems = 5000  Width = 6  Positions = 4
INVARIANTS Finds Covered Limited Emit
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
