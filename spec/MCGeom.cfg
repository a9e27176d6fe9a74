SPECIFICATION Spec
CONSTANTS EMIT = TRUE
 N = 3
INVARIANTS AcceptsExactly SliceExact Regions Adjoint
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
