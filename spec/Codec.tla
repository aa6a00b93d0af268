------------------------------- MODULE Codec --------------------------------
(* Octet encodings of points (SEC1-like) and of ECDSA signatures.          *)
EXTENDS Curve

ByteLen(c) == (c.bits + 7) \div 8
PointLen(c, compress) == IF compress THEN 1 + ByteLen(c) ELSE 1 + 2 * ByteLen(c)
Parity(a) == BBit(a, 0)

Encode(c, P, compress) ==
  LET w == ByteLen(c) IN
  IF P.o THEN [k \in 1..PointLen(c, compress) |-> 0]
  ELSE IF compress THEN <<2 + Parity(P.y)>> \o BToBytes(P.x, w)
  ELSE <<4>> \o BToBytes(P.x, w) \o BToBytes(P.y, w)

AllZero(s) == \A k \in 1..Len(s) : s[k] = 0

\* y^2 as a function of x; the equation has a solution iff it is a square.
\* For ed/te the denominator is never zero on complete curves.
YSquare(c, x) ==
  LET p == c.p
      x2 == MMul(x, x, p)
  IN CASE c.t = "ws" -> RHS(c, x, B0)
       [] c.t = "mo" -> MDiv(RHS(c, x, B0), c.a, p)
       [] c.t = "ed" -> LET c2 == MMul(c.a, c.a, p)
                        IN MDiv(MSub(c2, x2, p), MSub(B1, MMul(c2, MMul(c.b, x2, p), p), p), p)
       [] c.t = "te" -> MDiv(MSub(B1, MMul(c.a, x2, p), p), MSub(B1, MMul(c.b, x2, p), p), p)

\* The byte string s is the encoding of some point of c.
Decodable(c, s) ==
  LET w == ByteLen(c)
      x == BFromBytes(SubSeq(s, 2, 1 + w))
      y == BFromBytes(SubSeq(s, 2 + w, 1 + 2 * w))
  IN \/ /\ AllZero(s)                           \* the neutral element, for every form
        /\ Len(s) \in {1 + w, 1 + 2 * w}
     \/ /\ Len(s) = 1 + 2 * w /\ s[1] = 4
        /\ BLt(x, c.p) /\ BLt(y, c.p) /\ Satisfies(c, x, y)
     \/ /\ Len(s) = 1 + w /\ s[1] \in {2, 3}
        /\ BLt(x, c.p)
        /\ LET yy == YSquare(c, x)
           IN IF yy = B0 THEN s[1] = 2 ELSE IsSquare(yy, c.p)
\* P is the point s encodes (for decodable s)
DecodesTo(c, s, P) ==
  IF AllZero(s) THEN P = Neutral(c)
  ELSE /\ OnCurve(c, P)
       /\ s \in {Encode(c, P, TRUE), Encode(c, P, FALSE)}

\* hexadecimal text (character codes) -> bytes
IsHexCode(h) == h \in 48..57 \/ h \in 65..70 \/ h \in 97..102
HexCodeVal(h) == IF h <= 57 THEN h - 48 ELSE IF h <= 70 THEN h - 55 ELSE h - 87
IsHexText(t) == Len(t) % 2 = 0 /\ \A k \in 1..Len(t) : IsHexCode(t[k])
HexTextBytes(t) == [k \in 1..(Len(t) \div 2) |->
                      16 * HexCodeVal(t[2*k - 1]) + HexCodeVal(t[2*k])]
NibbleCode(v) == IF v < 10 THEN 48 + v ELSE 55 + v            \* upper case
HexTextOf(s) == [k \in 1..(2 * Len(s)) |->
                   NibbleCode(IF k % 2 = 1 THEN s[(k + 1) \div 2] \div 16
                                           ELSE s[k \div 2] % 16)]

\* --- signatures -------------------------------------------------------------
SigWidth(n) == (BBitLen(n) + 7) \div 8
SigEncode(n, r, s) == BToBytes(r, SigWidth(n)) \o BToBytes(s, SigWidth(n))
InRange1(v, n) == v # B0 /\ BSgn(v) > 0 /\ BLt(v, n)
SigDecR(n, b) == BFromBytes(SubSeq(b, 1, SigWidth(n)))
SigDecS(n, b) == BFromBytes(SubSeq(b, SigWidth(n) + 1, 2 * SigWidth(n)))
SigDecodable(n, b) == /\ Len(b) = 2 * SigWidth(n)
                      /\ InRange1(SigDecR(n, b), n) /\ InRange1(SigDecS(n, b), n)
=============================================================================
