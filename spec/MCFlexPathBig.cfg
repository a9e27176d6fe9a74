SPECIFICATION Spec
CONSTANTS EMIT = FALSE
 Depth = 4
INVARIANTS Shape Certified Equivariant Grows Similar Square Accepts Moving Sectioned
CHECK_DEADLOCK FALSE
