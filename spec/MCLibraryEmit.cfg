SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B"}
  MaxObjs = 2
  MaxRefs = 2
  NLibs = 1
  MaxLen = 5
  Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
