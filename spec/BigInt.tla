------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers for the ecclib specification.              *)
(*                                                                         *)
(* TLC's integers are 32 bits wide; the implementation's are up to 2048.   *)
(* An integer is represented as the sequence of its base-2^15 limbs, least *)
(* significant first, without high zero limbs; all limbs of a number carry *)
(* the number's sign.  So 0 = << >>, 5 = <<5>>, -5 = <<-5>>,               *)
(* 32768 = <<0, 1>>.  The representation is canonical, so TLA+ equality is *)
(* numeric equality.                                                       *)
(*                                                                         *)
(* Every operator below has a definition in plain TLA+.  For speed the     *)
(* ones listed in java/BigOverrides.java are evaluated by java.math        *)
(* .BigInteger; MC/MCBigInt.tla checks, without the overrides' help, that  *)
(* both agree.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB == 32768          \* limb base

Abs(i) == IF i < 0 THEN -i ELSE i

RECURSIVE Norm(_)
Norm(s) == IF s = << >> THEN s
           ELSE IF s[Len(s)] = 0 THEN Norm(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* --- construction ---------------------------------------------------------
RECURSIVE PFromNat(_)
PFromNat(i) == IF i = 0 THEN << >> ELSE <<i % LB>> \o PFromNat(i \div LB)
PNeg(a) == [k \in 1..Len(a) |-> -a[k]]
PFromInt(i) == IF i < 0 THEN PNeg(PFromNat(-i)) ELSE PFromNat(i)
BFromInt(i) == PFromInt(i)

RECURSIVE PToNat(_)
PToNat(a) == IF a = << >> THEN 0 ELSE a[1] + LB * PToNat(SubSeq(a, 2, Len(a)))
BToInt(a) == PToNat(a)                 \* only for values that fit TLC's ints

Lmb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

\* --- magnitude arithmetic (operands >= 0) ---------------------------------
RECURSIVE PCmpAt(_, _, _)
PCmpAt(a, b, k) == IF k = 0 THEN 0
                   ELSE IF Lmb(a, k) < Lmb(b, k) THEN -1
                   ELSE IF Lmb(a, k) > Lmb(b, k) THEN 1
                   ELSE PCmpAt(a, b, k - 1)

RECURSIVE PAddC(_, _, _, _)
PAddC(a, b, k, c) ==
  IF k > MaxLen(a, b) THEN (IF c = 0 THEN << >> ELSE <<c>>)
  ELSE LET t == Lmb(a, k) + Lmb(b, k) + c
       IN <<t % LB>> \o PAddC(a, b, k + 1, t \div LB)
RECURSIVE PSubC(_, _, _, _)
PSubC(a, b, k, c) ==                     \* requires a >= b
  IF k > Len(a) THEN << >>
  ELSE LET t == Lmb(a, k) - Lmb(b, k) - c
       IN <<t % LB>> \o PSubC(a, b, k + 1, IF t < 0 THEN 1 ELSE 0)
PMagAdd(a, b) == PAddC(a, b, 1, 0)
PMagSub(a, b) == Norm(PSubC(a, b, 1, 0))

\* a * (one limb d), plus carry
RECURSIVE PMul1(_, _, _, _)
PMul1(a, d, k, c) ==
  IF k > Len(a) THEN (IF c = 0 THEN << >> ELSE <<c>>)
  ELSE LET t == a[k] * d + c IN <<t % LB>> \o PMul1(a, d, k + 1, t \div LB)
RECURSIVE PMagMul(_, _)
PMagMul(a, b) == IF b = << >> \/ a = << >> THEN << >>
                 ELSE LET hi == PMagMul(a, SubSeq(b, 2, Len(b)))
                      IN Norm(PMagAdd(PMul1(a, b[1], 1, 0),
                                 IF hi = << >> THEN << >> ELSE <<0>> \o hi))

\* --- signed arithmetic ----------------------------------------------------
BSgn(a) == IF a = << >> THEN 0 ELSE IF a[Len(a)] < 0 THEN -1 ELSE 1
Mag(a)  == IF BSgn(a) < 0 THEN PNeg(a) ELSE a
BNeg(a) == PNeg(a)
BAdd(a, b) ==
  IF BSgn(a) >= 0 /\ BSgn(b) >= 0 THEN PMagAdd(a, b)
  ELSE IF BSgn(a) <= 0 /\ BSgn(b) <= 0 THEN PNeg(PMagAdd(Mag(a), Mag(b)))
  ELSE LET pos == IF BSgn(a) > 0 THEN a ELSE b
           neg == Mag(IF BSgn(a) > 0 THEN b ELSE a)
       IN IF PCmpAt(pos, neg, MaxLen(pos, neg)) >= 0
          THEN PMagSub(pos, neg) ELSE PNeg(PMagSub(neg, pos))
BSub(a, b) == BAdd(a, PNeg(b))
BMul(a, b) == LET m == PMagMul(Mag(a), Mag(b))
              IN IF BSgn(a) * BSgn(b) < 0 THEN PNeg(m) ELSE m
BCmp(a, b) == BSgn(BSub(a, b))
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0

\* --- bits -----------------------------------------------------------------
RECURSIVE PBitsOf(_)
PBitsOf(i) == IF i = 0 THEN 0 ELSE 1 + PBitsOf(i \div 2)
Pow2(k) == 2 ^ k                            \* k <= 30
BBitLen(a) == IF a = << >> THEN 0 ELSE 15 * (Len(a) - 1) + PBitsOf(Abs(a[Len(a)]))
BBit(a, i) == (Lmb(a, (i \div 15) + 1) \div Pow2(i % 15)) % 2       \* a >= 0
BShl1(a) == PMagAdd(a, a)
BShr(a, k) ==                                                       \* a >= 0
  LET w == k \div 15   s == k % 15   n == Len(a) - w
  IN IF n <= 0 THEN << >>
     ELSE Norm([j \in 1..n |-> (a[j + w] \div Pow2(s))
                    + (Lmb(a, j + w + 1) % Pow2(s)) * Pow2(15 - s)])

\* --- division: binary long division of magnitudes -------------------------
\* <<quotient, remainder>> of a by m (a >= 0, m > 0), processing bit i downto 0
RECURSIVE PDivBits(_, _, _, _, _)
PDivBits(a, m, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r2 == PMagAdd(BShl1(r), IF BBit(a, i) = 1 THEN <<1>> ELSE << >>)
           ge == PCmpAt(r2, m, MaxLen(r2, m)) >= 0
       IN PDivBits(a, m, i - 1,
              PMagAdd(BShl1(q), IF ge THEN <<1>> ELSE << >>),
              IF ge THEN PMagSub(r2, m) ELSE r2)
PMagDivMod(a, m) == PDivBits(a, m, BBitLen(a) - 1, << >>, << >>)
\* non-negative remainder
BMod(a, m) == LET r == PMagDivMod(Mag(a), m)[2]
              IN IF BSgn(a) < 0 /\ r # << >> THEN PMagSub(m, r) ELSE r
BDiv(a, m) == PMagDivMod(a, m)[1]                       \* a >= 0, m > 0

\* --- modular arithmetic on residues ---------------------------------------
MAdd(a, b, m) == BMod(BAdd(a, b), m)
MSub(a, b, m) == BMod(BSub(a, b), m)
MMul(a, b, m) == BMod(BMul(a, b), m)
MNeg(a, m)    == BMod(BNeg(a), m)
RECURSIVE PPowBits(_, _, _, _, _)
PPowBits(acc, b, e, m, i) ==
  IF i < 0 THEN acc
  ELSE LET s == MMul(acc, acc, m)
       IN PPowBits(IF BBit(e, i) = 1 THEN MMul(s, b, m) ELSE s, b, e, m, i - 1)
MPow(b, e, m) == PPowBits(BMod(<<1>>, m), BMod(b, m), e, m, BBitLen(e) - 1)
\* inverse modulo a prime m (Fermat); << >> when there is none
MInv(a, m) == IF BMod(a, m) = << >> THEN << >>
              ELSE IF m = <<2>> THEN <<1>> ELSE MPow(a, BSub(m, <<2>>), m)

\* --- bytes and hexadecimal -------------------------------------------------
RECURSIVE PFromBytes(_, _)
PFromBytes(s, n) == IF n = 0 THEN << >>
                    ELSE BAdd(BMul(PFromBytes(s, n - 1), <<256>>), PFromInt(s[n]))
BFromBytes(s) == PFromBytes(s, Len(s))                    \* big-endian
ByteAt(a, k) == LET q == BMod(BShr(a, 8 * k), <<256>>) IN IF q = << >> THEN 0 ELSE q[1]
BToBytes(a, n) == [k \in 1..n |-> ByteAt(a, n - k)]       \* big-endian, a >= 0

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal(c) == IF \E i \in 1..16 : HexDigits[i] = c
             THEN (CHOOSE i \in 1..16 : HexDigits[i] = c) - 1
             ELSE CASE c = "A" -> 10 [] c = "B" -> 11 [] c = "C" -> 12
                    [] c = "D" -> 13 [] c = "E" -> 14 [] c = "F" -> 15 [] OTHER -> -1

\* TLC cannot index strings portably; these are overridden (see Java).
BFromHex(str) == CHOOSE a \in Seq(Int) : FALSE      \* "-1f" -> <<-31>>
HexBytes(str) == CHOOSE a \in Seq(0..255) : FALSE   \* "0aff" -> <<10, 255>>
StrCodes(str) == CHOOSE a \in Seq(0..255) : FALSE   \* character codes
DecInt(str)   == CHOOSE i \in Int : FALSE           \* "-12" -> -12
BToHex(a)     == CHOOSE s \in STRING : FALSE

\* Miller-Rabin is the override; the definition is trial division.
BIsPrime(a) == /\ BLe(<<2>>, a)
               /\ \A d \in 2..(BToInt(a) - 1) : BMod(a, PFromInt(d)) # << >>
=============================================================================
