SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  MaxRefs = 2
  Editing = TRUE
  Emitting = FALSE
VIEW View
INVARIANTS DocumentShows
CHECK_DEADLOCK FALSE
