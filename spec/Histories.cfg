SPECIFICATION Spec
CONSTANTS NF = 4 NC = 3 NP = 4 NS = 2 NG = 2 NE = 2 NCV = 3
CONSTANT N <- HistLen
INVARIANTS Legal Emit
CHECK_DEADLOCK FALSE
