SPECIFICATION Spec
CONSTANTS Emitting = FALSE
 Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Ordered Accepted Rejected Steps
