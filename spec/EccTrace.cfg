SPECIFICATION Spec
INVARIANT WellFormed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
