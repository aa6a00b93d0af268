INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
