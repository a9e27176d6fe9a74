SPECIFICATION Spec
CONSTANTS MaxCells = 2 MaxEl = 2 Rich = FALSE
INVARIANTS RoundTrip Stamping Partition Reals
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
