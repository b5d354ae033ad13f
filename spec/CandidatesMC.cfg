SPECIFICATION Spec
CONSTANTS Problems = 300  Width = 4  Positions = 3
INVARIANTS Finds Covered Limited Emit
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
