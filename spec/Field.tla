------------------------------- MODULE Field --------------------------------
(* Prime fields: what every mpFp_* operation must compute (residues).      *)
EXTENDS BigInt

B0 == << >>
B1 == <<1>>
B2 == <<2>>
B3 == <<3>>

IsResidue(a, p) == BSgn(a) >= 0 /\ BLt(a, p)

\* a is zero or a quadratic residue modulo the odd prime p (Euler)
IsSquare(a, p) == LET r == BMod(a, p)
                  IN r = B0 \/ MPow(r, BShr(BSub(p, B1), 1), p) = B1
\* r is a square root of a
IsRoot(r, a, p) == IsResidue(r, p) /\ MMul(r, r, p) = BMod(a, p)
\* one of them, 0 if there is none (evaluated by java/BigOverrides.java)
MSqrt(a, p) == IF \E r \in {BFromInt(i) : i \in 0..(BToInt(p) - 1)} : IsRoot(r, a, p)
               THEN CHOOSE r \in {BFromInt(i) : i \in 0..(BToInt(p) - 1)} : IsRoot(r, a, p) ELSE B0
IsInverse(r, a, p) == IsResidue(r, p) /\ MMul(r, a, p) = BMod(B1, p)

MSqr(a, p)  == MMul(a, a, p)
MCube(a, p) == MMul(MMul(a, a, p), a, p)
MDiv(a, b, p) == MMul(a, MInv(b, p), p)
\* exponentiation with a possibly negative exponent (base # 0 then)
MPowZ(a, e, p) == IF BSgn(e) < 0 THEN MPow(MInv(a, p), BNeg(e), p) ELSE MPow(a, e, p)
=============================================================================
