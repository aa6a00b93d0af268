SPECIFICATION Spec
INVARIANT NothingHalfMade
INVARIANT OneField
INVARIANT RightField
INVARIANT NothingLost
PROPERTY Returns
CONSTANTS Threads = {1, 2, 3}
          Moduli = {5, 7}
          Calls = 2
          Locked = TRUE
CHECK_DEADLOCK FALSE
