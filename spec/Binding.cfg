SPECIFICATION BSpec
INVARIANT WellFormed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
