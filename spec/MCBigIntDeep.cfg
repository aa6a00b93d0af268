INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
