SPECIFICATION Spec
CONSTANTS Emitting = FALSE
 Depth = 2
CHECK_DEADLOCK FALSE
INVARIANTS Ordered Accepted Rejected Steps
