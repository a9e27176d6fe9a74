SPECIFICATION Spec
CONSTANTS EMIT = TRUE
 Depth = 3
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
