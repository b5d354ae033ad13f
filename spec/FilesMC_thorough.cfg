SPECIFICATION Spec
CONSTANTS MaxLen = 8
INVARIANT HandleIsFile
PROPERTY Guarded
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
