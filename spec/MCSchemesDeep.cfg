INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Fields = {7, 11, 13}
 Orders = {5, 7, 11, 13, 17, 19}
CHECK_DEADLOCK FALSE
