SPECIFICATION RSpec
INVARIANT WellFormed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
