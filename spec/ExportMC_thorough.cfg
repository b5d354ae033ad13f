SPECIFICATION Spec
CONSTANTS Problems = 60000 Careful = TRUE
INVARIANTS Sound Complete OneDirection Again
CHECK_DEADLOCK FALSE
