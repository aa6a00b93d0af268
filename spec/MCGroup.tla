------------------------------- MODULE MCGroup --------------------------------
(***************************************************************************)
(* The group law of Curve.tla is a group law: on every curve of every form  *)
(* over some small fields, addition is closed, commutative, associative,    *)
(* has the neutral element and the inverses stated; multiples by repeated   *)
(* addition agree with the double-and-add definition and with the override; *)
(* the number of points meets the Hasse bound and annihilates every point;  *)
(* the criterion for singularity is the geometric one; the codec of         *)
(* Codec.tla is a bijection between points and decodable octet strings.     *)
(***************************************************************************)
EXTENDS Codec, TLC
CONSTANT Fields

Curves == {[t |-> t, p |-> BFromInt(p), a |-> BFromInt(a), b |-> BFromInt(b), n |-> B1, h |-> B1, gx |-> B0, gy |-> B0, bits |-> BBitLen(BFromInt(p))] :
             t \in {"ws", "mo", "ed", "te"}, p \in Fields, a \in 0..16, b \in 0..16}
InField(c) == BLt(c.a, c.p) /\ BLt(c.b, c.p)

VARIABLES c, pts, P, Q
vars == <<c, pts, P, Q>>
Init == /\ c \in {x \in Curves : InField(x)}
        /\ NonSingular(c)
        /\ pts = AllPoints(c)
        /\ P = Neutral(c) /\ Q = Neutral(c)
Next == /\ P = Neutral(c) /\ Q = Neutral(c)
        /\ P' \in pts /\ Q' \in pts
        /\ UNCHANGED <<c, pts>>

RECURSIVE Times(_, _)
Times(k, R) == IF k = 0 THEN Neutral(c) ELSE Add(c, Times(k - 1, R), R)
Group ==
  LET S == Add(c, P, Q) IN
  /\ S \in pts /\ OnCurve(c, S)
  /\ S = Add(c, Q, P)
  /\ Add(c, P, Neutral(c)) = P
  /\ Neg(c, P) \in pts /\ Add(c, P, Neg(c, P)) = Neutral(c)
  /\ Sub(c, S, Q) = P
  /\ \A R \in pts : Add(c, S, R) = Add(c, P, Add(c, Q, R))
Count ==
  LET N == Cardinality(pts) IN
  /\ Hasse(c.p, BFromInt(N))
  /\ Times(N, P) = Neutral(c)
Multiples == Q = Neutral(c) =>
  \A k \in 0..(2 * Cardinality(pts) + 1) :
     LET m == Times(k, P)  b == BFromInt(k) IN PSMul(c, b, P) = m /\ SMul(c, b, P) = m
Encoding ==
  /\ \A f \in BOOLEAN : LET s == Encode(c, P, f) IN
       /\ Len(s) = PointLen(c, f)
       /\ Decodable(c, s) /\ DecodesTo(c, s, P)
       /\ (s = Encode(c, Q, f)) => P = Q
\* every octet string of the two lengths which decodes is the encoding of a point
Strings == (P = Neutral(c) /\ Q = Neutral(c)) =>
  LET X == 0..(BToInt(c.p) + 2) \cup {128, 255}
      enc == {Encode(c, R, f) : R \in pts, f \in BOOLEAN} \cup {[k \in 1..PointLen(c, f) |-> 0] : f \in BOOLEAN}
  IN \A h \in {0, 1, 2, 3, 4, 5, 6, 7, 255} : \A x \in X :
       /\ Decodable(c, <<h, x>>) = (<<h, x>> \in enc)
       /\ ~Decodable(c, <<h>>)
       /\ h \in {0, 2, 4} => \A y \in X : /\ Decodable(c, <<h, x, y>>) = (<<h, x, y>> \in enc)
                                           /\ ~Decodable(c, <<h, x, y, 0>>)
Laws == Group /\ Count /\ Multiples /\ Encoding /\ Strings
=============================================================================
