INIT Init
NEXT Next
INVARIANT Say
CHECK_DEADLOCK FALSE
