SPECIFICATION Spec
CONSTANTS EMIT = FALSE
 Depth = 3
INVARIANTS Chained Grows Sides Changes Circles Equivariant Accepts Observed
CHECK_DEADLOCK FALSE
