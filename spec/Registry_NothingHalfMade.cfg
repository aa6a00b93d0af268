INIT Init
NEXT Next
INVARIANT NothingHalfMade
CONSTANTS Threads = {1, 2}
          Moduli = {5, 7}
          Calls = 2
          Locked = FALSE
CHECK_DEADLOCK FALSE
