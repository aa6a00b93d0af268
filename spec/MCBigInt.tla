------------------------------- MODULE MCBigInt -------------------------------
(***************************************************************************)
(* The operators of BigInt as evaluated by java/BigOverrides.java against   *)
(* their definitions in TLA+.  PureBigInt is a copy of BigInt under another *)
(* name (made by lib/vlib.py), for which no override is installed.          *)
(* A state is a pair of integers; all pairs over the values below are       *)
(* reachable.       Limb values at the ends of the range make every carry,  *)
(* borrow and length change occur.                                          *)
(***************************************************************************)
EXTENDS BigInt, TLC, FiniteSets
CONSTANT Deep
Q == INSTANCE PureBigInt

Ends == IF Deep THEN {0, 1, 16384, 32767} ELSE {0, 1, 32767}
Nats == {Norm(s) : s \in UNION {[1..k -> Ends] : k \in 0..2}}
        \cup {<<0, 0, 1>>, <<32767, 32767, 32767>>, <<0, 0, 0, 1>>, <<1, 0, 0, 16384>>, <<5>>, <<7>>, <<255>>, <<256>>, <<12345, 17>>}
Vals == Nats \cup {PNeg(a) : a \in Nats}
Moduli == {<<1>>, <<2>>, <<3>>, <<7>>, <<32767>>, <<0, 1>>, <<1, 1>>, <<32749>>, <<32765, 32767>>, <<15, 0, 16384>>}
\* odd primes for the inverse
Primes == {<<2>>, <<3>>, <<7>>, <<251>>, <<32749>>, <<3, 2>>, <<32767, 32767, 1>>}

VARIABLES a, b
Init == a \in Vals /\ b = << >>
Next == b = << >> /\ b' \in Vals /\ UNCHANGED a

Unary ==
  /\ BNeg(a) = Q!BNeg(a) /\ BBitLen(a) = Q!BBitLen(a)
  /\ (Len(a) < 3) => BToInt(a) = Q!BToInt(a) /\ BFromInt(BToInt(a)) = a /\ Q!BFromInt(BToInt(a)) = a
  /\ BSgn(a) >= 0 => /\ \A i \in 0..61 : BBit(a, i) = Q!BBit(a, i)
                     /\ \A i \in {0, 1, 7, 14, 15, 16, 29, 30, 31, 44, 45, 46, 60, 100} : BShr(a, i) = Q!BShr(a, i)
                     /\ \A n \in {0, 1, 2, 3, 8} : BToBytes(a, n) = Q!BToBytes(a, n)
                     /\ LET s == BToBytes(a, 9) IN BFromBytes(s) = a /\ Q!BFromBytes(s) = a
  /\ BFromHex(BToHex(a)) = a
  /\ Len(a) <= 1 => BIsPrime(Mag(a)) = Q!BIsPrime(Mag(a))
Binary ==
  /\ BAdd(a, b) = Q!BAdd(a, b) /\ BSub(a, b) = Q!BSub(a, b) /\ BMul(a, b) = Q!BMul(a, b)
  /\ BCmp(a, b) = Q!BCmp(a, b) /\ BLt(a, b) = (BCmp(a, b) < 0) /\ BLe(a, b) = (BCmp(a, b) < 1)
  /\ b # << >> => BMod(a, Mag(b)) = Q!BMod(a, Mag(b)) /\ BDiv(Mag(a), Mag(b)) = Q!BDiv(Mag(a), Mag(b))
\* exponents stay small here: the definition works bit by bit
\* (the definition divides bit by bit)
Modular == (Deep \/ Len(a) + Len(b) <= 2) => \A m \in Moduli :
  LET x == BMod(a, m)  y == BMod(b, m) IN
  /\ MAdd(x, y, m) = Q!MAdd(x, y, m) /\ MSub(x, y, m) = Q!MSub(x, y, m)
  /\ MMul(x, y, m) = Q!MMul(x, y, m) /\ MNeg(x, m) = Q!MNeg(x, m)
Powers == (Deep \/ Len(a) + Len(b) <= 2) => \A m \in {<<7>>, <<32749>>, <<15, 0, 16384>>} :
  MPow(BMod(a, m), Mag(b), m) = Q!MPow(BMod(a, m), Mag(b), m)
Inverses == b = << >> => \A p \in Primes : MInv(BMod(a, p), p) = Q!MInv(BMod(a, p), p)
Laws == Unary /\ Binary /\ Modular /\ Powers /\ Inverses
=============================================================================
