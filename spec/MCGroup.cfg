INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Fields = {5, 7}
CHECK_DEADLOCK FALSE
