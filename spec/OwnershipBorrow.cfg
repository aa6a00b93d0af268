SPECIFICATION Unbounded
CONSTANTS
  NF = 0
  NC = 2
  NP = 2
  NS = 1
  NG = 1
  NE = 1
  NCV = 1
  Borrow = TRUE
  Gen = FALSE
  Bound = 5
INVARIANTS NoDangling
VIEW View
CHECK_DEADLOCK FALSE
