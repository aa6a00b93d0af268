SPECIFICATION Spec
CONSTANTS
  NF = 3
  NC = 3
  NP = 4
  NS = 2
  NG = 2
  NE = 2
  NCV = 2
  Borrow = FALSE
  Gen = TRUE
  Bound = 60
INVARIANTS NoDangling NamesLive NoLeak Emit
CHECK_DEADLOCK FALSE
