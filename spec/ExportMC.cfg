SPECIFICATION Spec
CONSTANTS Problems = 4000 Careful = TRUE
INVARIANTS Sound Complete OneDirection Again
CHECK_DEADLOCK FALSE
