------------------------------ MODULE MCNamed -------------------------------
(* The published table is itself consistent: every row is a prime field, a *)
(* non-singular equation, a generator of exactly the listed prime order,   *)
(* a cofactor with h*n in the Hasse interval, and the right bit length.    *)
EXTENDS Named, TLC
VARIABLE i
Init == i = 1
Next == i < Len(NamedCurves) /\ i' = i + 1
RowOk ==
  LET c == NamedRow(i) IN
  /\ BIsPrime(c.p) /\ BIsPrime(c.n)
  /\ c.bits = BBitLen(c.p)
  /\ NonSingular(c)
  /\ OnCurve(c, Gen(c)) /\ ~IsNeutral(c, Gen(c))
  /\ IsNeutral(c, SMul(c, c.n, Gen(c)))
  /\ Hasse(c.p, BMul(c.h, c.n))
  /\ \A j \in DOMAIN NamedCurves : NamedCurves[j][1] = NamedCurves[i][1] => j = i
=============================================================================
