INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Fields = {7}
 Orders = {5, 7, 11, 13}
CHECK_DEADLOCK FALSE
