SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  MaxRefs = 2
  Editing = TRUE
  Emitting = FALSE
VIEW View
INVARIANTS AreaIsShown LayersAreShown SameShapes BoxAnyDepth
PROPERTIES FlattenKeeps CopyIsImage EditsAreLocal RemovalIsExact
CHECK_DEADLOCK FALSE
