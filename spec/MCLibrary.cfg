SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B"}
  MaxObjs = 3
  MaxRefs = 2
  NLibs = 1
  MaxLen = 6
  Emitting = FALSE
VIEW View
INVARIANTS TypeOK KeysOK
PROPERTIES FailureAtomic AddCloses OverwriteRebinds RemoveCleans RenameKeeps
CHECK_DEADLOCK FALSE
