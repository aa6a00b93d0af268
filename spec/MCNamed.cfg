INIT Init
NEXT Next
INVARIANT RowOk
CHECK_DEADLOCK FALSE
