SPECIFICATION Spec
CONSTANTS EMIT = FALSE
 Depth = 2
INVARIANTS Chained Relative OneByOne Smooth Accepts
CHECK_DEADLOCK FALSE
