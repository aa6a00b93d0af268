SPECIFICATION GSpec
INVARIANT WellFormed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
