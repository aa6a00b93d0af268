------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* The four curve forms of the library and their groups, in textbook       *)
(* affine form (the implementation uses projective coordinates and, for    *)
(* Montgomery curves, a transformed short Weierstrass curve).              *)
(*                                                                         *)
(* A curve is a record                                                     *)
(*   [t |-> "ws"|"ed"|"mo"|"te", p, a, b, n, h, gx, gy, bits]              *)
(* where (a, b) are the coefficients in the order of the library's API:    *)
(*   ws: y^2 = x^3 + a x + b                                               *)
(*   ed: x^2 + y^2 = a^2 (1 + b x^2 y^2)                                   *)
(*   mo: a y^2 = x^3 + b x^2 + x                                           *)
(*   te: a x^2 + y^2 = 1 + b x^2 y^2                                       *)
(* A point is [o |-> BOOLEAN, x, y]; o marks the point at infinity of the  *)
(* ws and mo forms (the neutral element of ed/te is an ordinary point).    *)
(***************************************************************************)
EXTENDS Field, FiniteSets

Aff(x, y) == [o |-> FALSE, x |-> x, y |-> y]
Inf == [o |-> TRUE, x |-> B0, y |-> B0]

HasInf(c) == c.t \in {"ws", "mo"}
Neutral(c) == CASE c.t = "ed" -> Aff(B0, c.a)
                [] c.t = "te" -> Aff(B0, BMod(B1, c.p))
                [] OTHER -> Inf
IsNeutral(c, P) == P = Neutral(c)

LHS(c, x, y) ==
  CASE c.t = "ws" -> MMul(y, y, c.p)
    [] c.t = "ed" -> MAdd(MMul(x, x, c.p), MMul(y, y, c.p), c.p)
    [] c.t = "mo" -> MMul(c.a, MMul(y, y, c.p), c.p)
    [] c.t = "te" -> MAdd(MMul(c.a, MMul(x, x, c.p), c.p), MMul(y, y, c.p), c.p)
RHS(c, x, y) ==
  LET p == c.p
      x2 == MMul(x, x, p)
      x2y2 == MMul(x2, MMul(y, y, p), p)
  IN CASE c.t = "ws" -> MAdd(MMul(MAdd(x2, c.a, p), x, p), c.b, p)
       [] c.t = "ed" -> MMul(MMul(c.a, c.a, p), MAdd(B1, MMul(c.b, x2y2, p), p), p)
       [] c.t = "mo" -> MMul(x, MAdd(MAdd(x2, MMul(c.b, x, p), p), B1, p), p)
       [] c.t = "te" -> MAdd(B1, MMul(c.b, x2y2, p), p)
\* coordinates are taken modulo p
Satisfies(c, x, y) == LET u == BMod(x, c.p)  v == BMod(y, c.p)
                      IN LHS(c, u, v) = RHS(c, u, v)
OnCurve(c, P) == IF P.o THEN HasInf(c)
                 ELSE /\ IsResidue(P.x, c.p) /\ IsResidue(P.y, c.p)
                      /\ Satisfies(c, P.x, P.y)

\* The equation defines a group on all of its points.
NonSingular(c) ==
  LET p == c.p
      nz(v) == BMod(v, p) # B0
  IN CASE c.t = "ws" -> nz(BAdd(BMul(<<4>>, BMul(c.a, BMul(c.a, c.a))), BMul(<<27>>, BMul(c.b, c.b))))
       [] c.t = "mo" -> nz(c.a) /\ nz(BSub(BMul(c.b, c.b), <<4>>))
       [] c.t = "ed" -> nz(c.a) /\ nz(c.b) /\ nz(BSub(B1, BMul(c.b, BMul(BMul(c.a, c.a), BMul(c.a, c.a)))))
                        /\ ~IsSquare(c.b, p)
       [] c.t = "te" -> nz(c.a) /\ nz(c.b) /\ nz(BSub(c.a, c.b))
                        /\ IsSquare(c.a, p) /\ ~IsSquare(c.b, p)

Neg(c, P) == IF P.o THEN P
             ELSE IF c.t \in {"ws", "mo"} THEN Aff(P.x, MNeg(P.y, c.p))
             ELSE Aff(MNeg(P.x, c.p), P.y)

Add(c, P, Q) ==
  LET p == c.p IN
  CASE c.t = "ws" ->
        IF P.o THEN Q ELSE IF Q.o THEN P
        ELSE IF P.x = Q.x /\ MAdd(P.y, Q.y, p) = B0 THEN Inf
        ELSE LET l == IF P.x = Q.x
                      THEN MDiv(MAdd(MMul(B3, MMul(P.x, P.x, p), p), c.a, p), MAdd(P.y, P.y, p), p)
                      ELSE MDiv(MSub(Q.y, P.y, p), MSub(Q.x, P.x, p), p)
                 x == MSub(MSub(MMul(l, l, p), P.x, p), Q.x, p)
             IN Aff(x, MSub(MMul(l, MSub(P.x, x, p), p), P.y, p))
    [] c.t = "mo" ->
        IF P.o THEN Q ELSE IF Q.o THEN P
        ELSE IF P.x = Q.x /\ MAdd(P.y, Q.y, p) = B0 THEN Inf
        ELSE LET l == IF P.x = Q.x
                      THEN MDiv(MAdd(MAdd(MMul(B3, MMul(P.x, P.x, p), p),
                                          MMul(MAdd(c.b, c.b, p), P.x, p), p), B1, p),
                                MMul(MAdd(c.a, c.a, p), P.y, p), p)
                      ELSE MDiv(MSub(Q.y, P.y, p), MSub(Q.x, P.x, p), p)
                 x == MSub(MSub(MSub(MMul(c.a, MMul(l, l, p), p), c.b, p), P.x, p), Q.x, p)
             IN Aff(x, MSub(MMul(l, MSub(P.x, x, p), p), P.y, p))
    [] c.t = "ed" ->
        LET xx == MMul(P.x, Q.x, p)  yy == MMul(P.y, Q.y, p)
            e == MMul(c.b, MMul(xx, yy, p), p)
        IN Aff(MDiv(MAdd(MMul(P.x, Q.y, p), MMul(P.y, Q.x, p), p), MMul(c.a, MAdd(B1, e, p), p), p),
               MDiv(MSub(yy, xx, p), MMul(c.a, MSub(B1, e, p), p), p))
    [] c.t = "te" ->
        LET xx == MMul(P.x, Q.x, p)  yy == MMul(P.y, Q.y, p)
            e == MMul(c.b, MMul(xx, yy, p), p)
        IN Aff(MDiv(MAdd(MMul(P.x, Q.y, p), MMul(P.y, Q.x, p), p), MAdd(B1, e, p), p),
               MDiv(MSub(yy, MMul(c.a, xx, p), p), MSub(B1, e, p), p))

Sub(c, P, Q) == Add(c, P, Neg(c, Q))

\* k * P for k >= 0, left to right
RECURSIVE SMulBits(_, _, _, _, _)
SMulBits(c, P, k, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET d == Add(c, acc, acc)
       IN SMulBits(c, P, k, i - 1, IF BBit(k, i) = 1 THEN Add(c, d, P) ELSE d)
PSMul(c, k, P) == SMulBits(c, P, k, BBitLen(k) - 1, Neutral(c))
\* (evaluated by java/BigOverrides.java; MCGroup.tla compares it with PSMul)
SMul(c, k, P) == PSMul(c, k, P)
\* any integer scalar, reduced modulo the order as the API defines
SMulZ(c, z, P) == SMul(c, BMod(z, c.n), P)

Gen(c) == Aff(BMod(c.gx, c.p), BMod(c.gy, c.p))

\* Hasse: |p + 1 - N| <= 2 sqrt p, i.e. (p + 1 - N)^2 <= 4p
Hasse(p, N) == LET t == BSub(BAdd(p, B1), N) IN BLe(BMul(t, t), BMul(<<4>>, p))

\* --- small fields: enumeration ---------------------------------------------
SmallNums(p) == {BFromInt(i) : i \in 0..(BToInt(p) - 1)}
AllPoints(c) == {Aff(x, y) : <<x, y>> \in {q \in SmallNums(c.p) \X SmallNums(c.p) :
                                              Satisfies(c, q[1], q[2])}}
                \cup (IF HasInf(c) THEN {Inf} ELSE {})
=============================================================================
