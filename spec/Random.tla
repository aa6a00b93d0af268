------------------------------- MODULE Random --------------------------------
(***************************************************************************)
(* Randomness of the C library (property C13).                             *)
(*                                                                         *)
(* The library is run with every source of operating-system randomness     *)
(* replaced by a stream the script chooses and whose consumption is        *)
(* counted (driver/rnd.c).  The abstract machine of EccTrace is extended   *)
(* by the set of nonce images seen so far: a nonce k shows itself as the   *)
(* abscissa of k*G modulo n (r of a signature, the first half of an        *)
(* ElGamal pair, a random point), so that no image may come up twice.      *)
(*                                                                         *)
(* Distribution is decided on samples: the Pearson statistic of K cells    *)
(* must stay under 2(K-1) + 60.  For uniform draws the chance to exceed    *)
(* this is below 1e-12 for every K used here; the streams are fixed, so    *)
(* the verdict on given code never varies.                                 *)
(***************************************************************************)
EXTENDS EccTrace, FiniteSets, FiniteSetsExt

VARIABLE seen
rvars == <<l, obj, pts, seen>>

ROps == {"rsrc", "zstat", "zhist", "zflip", "zfork", "zfault", "nsign", "nenc", "nrand"}

\* ---- statistics ---------------------------------------------------------------
SqSum(h) == FoldSet(LAMBDA k, acc : BAdd(acc, BMul(BFromInt(h[k]), BFromInt(h[k]))), B0, DOMAIN h)
\* h: cell -> count, N draws altogether
ChiOk(h, N) ==
  LET K == Cardinality(DOMAIN h)
      x == BSub(BMul(BFromInt(K), SqSum(h)), BMul(BFromInt(N), BFromInt(N)))      \* N * statistic
  IN BLe(x, BMul(BFromInt(N), BFromInt(2 * (K - 1) + 60)))
Hist(idx, cells) == TLCEval([c \in cells |-> Cardinality({i \in DOMAIN idx : idx[i] = c})])
\* (binding through a singleton set makes TLC evaluate an operand once)
Uniform(idx, cells) == \E x \in {idx} : \E h \in {Hist(x, cells)} : ChiOk(h, Len(x))

Small(b) == IF b = B0 THEN 0 ELSE BToInt(b)
IsPow2(n) == BBitLen(BSub(n, B1)) < BBitLen(n)
Needed(n) == BBitLen(BSub(n, B1))               \* bits that a value below n carries
\* a draw that always takes the same number of bits cannot be uniform when n is not a
\* power of two: then there must be enough of them to make the difference negligible
Margin(n) == IF 2 * BBitLen(n) < BBitLen(n) + 64 THEN 2 * BBitLen(n) ELSE BBitLen(n) + 64
\* n is so far below the next power of two that drawing again would show
Gap(n) == BLe(BShr(BMul(<<4>>, n), BBitLen(n)), <<2>>)

InRange(v, n) == BSgn(v) >= 0 /\ BLt(v, n)
Distinct(S) == Cardinality({S[i] : i \in DOMAIN S}) = Len(S)

\* V: values drawn for the bound n
GoodSample(V0, n) == \E V \in {V0} :
  LET N == Len(V)  b == BBitLen(n) IN
  /\ \A i \in 1..N : InRange(V[i], n)
  /\ (b >= 64 => Distinct(V))
  /\ (N >= 64 /\ n # B1 =>
        /\ \E i \in 1..N : BLe(n, BMul(B2, V[i]))
        /\ \E i \in 1..N : BLt(BMul(B2, V[i]), n))
  /\ (N >= 900 =>
        IF BLe(n, BFromInt(64))
        THEN Uniform(TLCEval([i \in 1..N |-> Small(V[i])]), 0..(BToInt(n) - 1))
        ELSE (b >= 13 =>
             /\ \A K \in {2, 3, 5, 16} :
                  Uniform(TLCEval([i \in 1..N |-> Small(BDiv(BMul(V[i], BFromInt(K)), n))]), 0..(K - 1))
             /\ \A K \in {3, 16} :
                  Uniform(TLCEval([i \in 1..N |-> Small(BMod(V[i], BFromInt(K)))]), 0..(K - 1))))
  /\ (N >= 900 /\ b >= 40 =>
        \A j \in 0..(b - 16) : Uniform(TLCEval([i \in 1..N |-> BBit(V[i], j)]), {0, 1}))

Vals(e, from) == [i \in 1..(Len(e.r) - from + 1) |-> BFromHex(e.r[i + from - 1])]

Stat(e) ==
  LET n == Hx(e.a[2])  N == DecInt(e.a[3])
      least == BToInt(Hx(e.r[1]))  most == BToInt(Hx(e.r[2]))
  IN \E V \in {TLCEval(Vals(e, 3))} :
     /\ Len(V) = N
     /\ 8 * least >= Needed(n)
     /\ (least = most /\ N >= 64 /\ ~IsPow2(n) /\ Gap(n) => 8 * least >= Margin(n))
     /\ GoodSample(V, n)

WholeHist(e) ==
  LET n == BToInt(Hx(e.a[1]))
      h == [v \in 0..(n - 1) |-> e.r[v + 1]]
  IN /\ e.r[n + 1] = 0
     /\ ChiOk(h, 2 ^ (8 * DecInt(e.a[2])))

Flip(e) ==
  LET n == Hx(e.a[1]) IN
  IF e.r[1] = "s" THEN DecInt(e.a[3]) # 0          \* a source that delivers little at a time may stop the draw
  ELSE /\ 8 * e.r[2] >= Needed(n)
       /\ (IsPow2(n) => 8 * e.r[5] >= Needed(n))
       /\ (e.r[2] = e.r[3] /\ ~IsPow2(n) /\ Gap(n) => 8 * e.r[5] >= Margin(n))

Fork(e) ==
  LET n == Hx(e.a[1])  N == DecInt(e.a[3])
  IN \E V \in {TLCEval(Vals(e, 1))} : Len(V) = 2 * N /\ (\A i \in DOMAIN V : InRange(V[i], n)) /\ Distinct(V)

\* n of a published curve
NamedOrder(name) == NamedRow(CHOOSE i \in DOMAIN NamedCurves : NamedCurves[i][1] = name).n

Fault(e) ==
  LET k == DecInt(e.a[2])  N == DecInt(e.a[5])
      n == IF e.a[3] \in {"z", "f"} THEN Hx(e.a[4]) ELSE NamedOrder(e.a[4])
      lines == [i \in 1..(Len(e.r) - 1) |-> e.r[i + 1]]
      got == {i \in DOMAIN lines : lines[i] # "failed"}
  IN /\ (e.r[1] = "k" => Len(lines) = N)
     /\ CASE e.a[1] = "missing" -> got = {}
          [] e.a[1] \in {"eof", "err"} -> Cardinality(got) * Needed(n) <= 8 * k
          [] e.a[1] = "chunk" -> TRUE
          [] e.a[1] = "ok" -> e.r[1] = "k" /\ Cardinality(got) = N
     /\ (BBitLen(n) >= 64 => Cardinality({lines[i] : i \in got}) = Cardinality(got))

\* ---- nonces -----------------------------------------------------------------------
BigN(c) == BBitLen(c.n) >= 60
NSign(e, T) ==
  LET sc == obj[e.a[1]]  c == T[sc.c]  d == Fe(obj, e.a[2])  N == DecInt(e.a[4])
      m == DigestInt(Digest(HexBytes(e.a[3]), sc.hsz), c.n)
      small == BLe(c.n, BFromInt(200))
  IN \E R \in {TLCEval(Vals(e, 2))} :
     \E nonce \in {TLCEval([i \in 1..N |-> NonceOf(c, d, m, R[2 * i - 1], R[2 * i])])} :
     \E images \in {{R[2 * i - 1] : i \in 1..N}} :
     \E kG \in {TLCEval([k \in 1..(IF small THEN BToInt(c.n) - 1 ELSE 1) |-> SMul(c, BFromInt(k), Gen(c))])} :
     \E rOf \in {TLCEval([k \in DOMAIN kG |-> BMod(kG[k].x, c.n)])} :
     \E allowed \in {{k \in DOMAIN kG : rOf[k] # B0 /\ BMod(BAdd(m, BMul(rOf[k], d)), c.n) # B0}} :
     /\ Len(R) = 2 * N
     /\ 8 * BToInt(Hx(e.r[1])) >= Needed(c.n)
     /\ \A i \in 1..N : nonce[i] # B0
     /\ IF small
        THEN /\ \A i \in 1..N : Small(nonce[i]) \in allowed /\ rOf[Small(nonce[i])] = R[2 * i - 1]
             /\ (N >= 900 => Uniform(TLCEval([i \in 1..N |-> Small(nonce[i])]), allowed))
        ELSE /\ \A i \in 1..(IF N > 3 THEN 3 ELSE N) : BMod(SMul(c, nonce[i], Gen(c)).x, c.n) = R[2 * i - 1]
             /\ GoodSample(nonce, c.n)
     /\ (BigN(c) => Cardinality(images) = N /\ images \cap seen = {})

PtSample(e, T, c, zero) ==         \* points listed in e.r[2..]
  LET N == Len(e.r) - 1
      small == BLe(c.n, BFromInt(200))
      lo == IF zero THEN 0 ELSE 1
  IN \E P \in {TLCEval([i \in 1..N |-> ParsePt(T, e.r[i + 1][1], e.r[i + 1][2], e.r[i + 1][3], e.r[i + 1][4])])} :
     \E kG \in {TLCEval([k \in lo..(IF small THEN BToInt(c.n) - 1 ELSE lo) |-> SMul(c, BFromInt(k), Gen(c))])} :
     \E images \in {{BMod(P[i].x, c.n) : i \in 1..N}} :
     /\ 8 * BToInt(Hx(e.r[1])) >= Needed(c.n)
     /\ \A i \in 1..N : SameCurve(T[e.r[i + 1][1]], c) /\ OnCurve(c, P[i])
     /\ (small => /\ \A i \in 1..N : \E k \in DOMAIN kG : kG[k] = P[i]
                  /\ (N >= 900 => Uniform(P, {kG[k] : k \in DOMAIN kG})))
     /\ (~zero => \A i \in 1..N : ~IsNeutral(c, P[i]))
     /\ (BigN(c) => /\ \A i \in 1..(IF N > 3 THEN 3 ELSE N) : IsNeutral(c, SMul(c, c.n, P[i]))
                    /\ Cardinality(images) = N /\ images \cap seen = {})

\* images of the nonces of a sampling operation
SampleImages(e, T) ==
  LET c == T[obj[e.a[1]].c] IN
  IF ~BigN(c) THEN {}
  ELSE CASE e.op = "nsign" -> {BFromHex(e.r[2 * i]) : i \in 1..DecInt(e.a[4])}
         [] e.op \in {"nenc", "nrand"} -> {BMod(BFromHex(e.r[i][3]), c.n) : i \in 2..Len(e.r)}
\* images of the nonces of the ordinary calls
Image(e, N, T) ==
  IF e.op \notin {"sign", "enc", "prand"} \/ e.a[1] \notin DOMAIN N THEN {}
  ELSE LET o == N[e.a[1]]  c == T[o.c] IN
       IF ~BigN(c) THEN {}
       ELSE CASE e.op = "sign" -> {o.r}
              [] e.op = "enc" -> {BMod(o.C.x, c.n)}
              [] e.op = "prand" -> {BMod(o.P.x, c.n)}

RInit == Init /\ seen = {}
RStep ==
  /\ l <= Len(Log)
  /\ LET e == Log[l]  T == Consts IN
     /\ e.op \in ROps
     /\ Changed(e) = {}
     \* (comparing with TRUE makes TLC evaluate this as a value, not as an action)
     /\ (CASE e.op = "rsrc"   -> TRUE
           [] e.op = "zstat"  -> Stat(e)
           [] e.op = "zhist"  -> WholeHist(e)
           [] e.op = "zflip"  -> Flip(e)
           [] e.op = "zfork"  -> Fork(e)
           [] e.op = "zfault" -> Fault(e)
           [] e.op = "nsign"  -> NSign(e, T)
           [] e.op = "nenc"   -> PtSample(e, T, T[obj[e.a[1]].c], FALSE)
           [] e.op = "nrand"  -> PtSample(e, T, T[obj[e.a[1]].c], TRUE)) = TRUE
     /\ seen' = CASE e.op = "rsrc" -> {}
                  [] e.op \in {"nsign", "nenc", "nrand"} -> seen \cup SampleImages(e, T)
                  [] OTHER -> seen
     /\ l' = l + 1 /\ UNCHANGED <<obj, pts>>
RCall ==
  /\ l <= Len(Log)
  /\ Log[l].op \notin ROps
  /\ Next
  /\ LET im == Image(Log[l], obj', Consts)
     IN im \cap seen = {} /\ seen' = seen \cup im

RSpec == RInit /\ [][RStep \/ RCall]_rvars
=============================================================================
