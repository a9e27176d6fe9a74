SPECIFICATION Spec
CONSTANTS EMIT = FALSE
 Depth = 3
INVARIANTS Unitary Attached
PROPERTIES Areas Rigid Accepts
CHECK_DEADLOCK FALSE
