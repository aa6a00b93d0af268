------------------------------ MODULE Schemes -------------------------------
(* ECDSA and ElGamal over the curve groups.                                *)
EXTENDS Codec

\* The drivers' message digest: hsz bytes, the message repeated cyclically.
Digest(msg, hsz) == [k \in 1..hsz |-> msg[((k - 1) % Len(msg)) + 1]]

\* leftmost bitlen(n) bits of the digest, as an integer
DigestInt(dg, n) ==
  LET e == BFromBytes(dg)   x == 8 * Len(dg) - BBitLen(n)
  IN IF x > 0 THEN BShr(e, x) ELSE e

\* textbook signature for nonce k; << >> components mean "draw another k"
SignWith(c, d, e, k) ==
  LET R == SMul(c, k, Gen(c))
      r == BMod(R.x, c.n)
      s == MMul(MInv(k, c.n), BAdd(e, BMul(r, d)), c.n)
  IN [r |-> r, s |-> s]

Verifies(c, Q, e, r, s) ==
  /\ InRange1(r, c.n) /\ InRange1(s, c.n)
  /\ LET w == MInv(s, c.n)
         X == Add(c, SMul(c, MMul(e, w, c.n), Gen(c)), SMul(c, MMul(r, w, c.n), Q))
     IN /\ ~IsNeutral(c, X)
        /\ BMod(X.x, c.n) = r

\* nonce that produced (r, s) under key d -- determined by the equation
NonceOf(c, d, e, r, s) == MMul(MInv(s, c.n), BAdd(e, BMul(r, d)), c.n)

ElgamalC(c, k) == SMul(c, k, Gen(c))
ElgamalD(c, k, Q, M) == Add(c, SMul(c, k, Q), M)
ElgamalDec(c, d, C, D) == Sub(c, D, SMul(c, d, C))
=============================================================================
