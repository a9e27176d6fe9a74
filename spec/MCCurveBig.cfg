SPECIFICATION Spec
CONSTANTS EMIT = FALSE
 Depth = 3
INVARIANTS Chained Relative OneByOne Smooth Accepts
CHECK_DEADLOCK FALSE
