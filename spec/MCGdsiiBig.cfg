SPECIFICATION Spec
CONSTANTS MaxCells = 2 MaxEl = 3 Rich = FALSE
INVARIANTS RoundTrip Stamping Partition Reals
CHECK_DEADLOCK FALSE
