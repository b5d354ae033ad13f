SPECIFICATION Spec
CONSTANTS Problems = 400 Careful = FALSE
INVARIANTS Sound Complete OneDirection Again
CHECK_DEADLOCK FALSE
