INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Fields = {5, 7, 11, 13}
CHECK_DEADLOCK FALSE
