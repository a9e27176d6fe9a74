SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  MaxRefs = 2
  Editing = FALSE
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
