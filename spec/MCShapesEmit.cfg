SPECIFICATION Spec
CONSTANTS EMIT = TRUE
 Depth = 3
INVARIANTS Undoes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
