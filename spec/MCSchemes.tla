------------------------------ MODULE MCSchemes -------------------------------
(***************************************************************************)
(* ECDSA and ElGamal as specified do what they are for.  On small curves    *)
(* with a subgroup of prime order, for every private key, digest and        *)
(* nonce: what SignWith makes verifies; what verifies has been made by some *)
(* nonce of the private key; the nonce can be recovered from the signature  *)
(* (that is how recordings are judged for reuse); decryption returns the    *)
(* plaintext for every point of the curve.                                  *)
(***************************************************************************)
EXTENDS Schemes, TLC
CONSTANT Fields, Orders

Curves == {[t |-> t, p |-> BFromInt(p), a |-> BFromInt(a), b |-> BFromInt(b), n |-> B1, h |-> B1, gx |-> B0, gy |-> B0, bits |-> BBitLen(BFromInt(p))] :
             t \in {"ws", "mo", "ed", "te"}, p \in Fields, a \in 1..6, b \in 1..6}
OrderOf(c, R) == LET N == {k \in 1..60 : IsNeutral(c, SMul(c, BFromInt(k), R))} IN
                 IF N = {} THEN 1 ELSE CHOOSE k \in N : \A j \in N : k <= j
\* one generator for each order which occurs
Groups(c) == LET g == {R \in AllPoints(c) : ~R.o /\ OrderOf(c, R) \in Orders}
                 os == {OrderOf(c, R) : R \in g}
             IN {LET G == CHOOSE R \in g : OrderOf(c, R) = o IN [c EXCEPT !.n = BFromInt(o), !.gx = G.x, !.gy = G.y] : o \in os}

VARIABLES c, d
Init == /\ \E k \in {x \in Curves : BLt(x.a, x.p) /\ BLt(x.b, x.p)} : NonSingular(k) /\ c \in Groups(k)
        /\ d = 0
Next == d = 0 /\ d' \in 1..(BToInt(c.n) - 1) /\ UNCHANGED c

n == BToInt(c.n)
I(k) == BFromInt(k)
Q == SMul(c, I(d), Gen(c))
Signatures == d > 0 => \A e \in 0..(n - 1) :
  LET made == {<<k, SignWith(c, I(d), I(e), I(k))>> : k \in 1..(n - 1)}
      usable == {m \in made : m[2].r # B0 /\ m[2].s # B0}
  IN /\ \A m \in usable : /\ Verifies(c, Q, I(e), m[2].r, m[2].s)
                          /\ NonceOf(c, I(d), I(e), m[2].r, m[2].s) = I(m[1])
     /\ \A r, s \in 0..n : Verifies(c, Q, I(e), I(r), I(s)) = (\E m \in usable : m[2] = [r |-> I(r), s |-> I(s)])
Decryption == d > 0 => \A M \in AllPoints(c) : \A k \in 1..(n - 1) :
  ElgamalDec(c, I(d), ElgamalC(c, I(k)), ElgamalD(c, I(k), Q, M)) = M
SigCodec == d > 0 => \A r, s \in 0..(n + 1) :
  LET b == SigEncode(c.n, I(r), I(s)) IN
  /\ Len(b) = 2 /\ SigDecR(c.n, b) = I(r) /\ SigDecS(c.n, b) = I(s)
  /\ SigDecodable(c.n, b) = (r \in 1..(n - 1) /\ s \in 1..(n - 1))
  /\ ~SigDecodable(c.n, Append(b, 0)) /\ ~SigDecodable(c.n, Tail(b))
Laws == Signatures /\ Decryption /\ SigCodec
=============================================================================
