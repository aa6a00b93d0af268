------------------------------ MODULE EccTrace ------------------------------
(***************************************************************************)
(* State machine of the C library, bound to recorded executions.           *)
(*                                                                         *)
(* The abstract state is the set of live API objects and their VALUES      *)
(* (residues, group elements, curves, signatures, ciphertexts): nothing    *)
(* about limbs, projective coordinates, tables or allocation appears.      *)
(* Each event of the trace is one completed API call as logged by          *)
(* driver/drv.c: operation, arguments, return values and every object      *)
(* whose value changed.  A step is allowed iff                             *)
(*   - only objects the operation is specified to write have changed, and  *)
(*   - Post(op) relates arguments, old state, return values, new state.    *)
(* Where the API leaves a choice (which square root, which nonce) Post is  *)
(* a relation, so any correct implementation is accepted.                  *)
(***************************************************************************)
EXTENDS Schemes, Named, Json, TLC, TLCExt, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES l,        \* next event
          obj,      \* handle -> abstract object
          pts       \* loaded point list for the table operations

vars == <<l, obj, pts>>

Undef == [k |-> "un"]

\* ---- decoding logged constants and objects ---------------------------------
ParseConst(t) ==
  IF t[2] = "m" THEN [t |-> "m", p |-> BFromHex(t[3])]
  ELSE IF Len(t) < 10 THEN [t |-> t[2]]
  ELSE [t |-> t[2], p |-> BFromHex(t[3]), a |-> BFromHex(t[4]), b |-> BFromHex(t[5]),
        n |-> BFromHex(t[6]), h |-> BFromHex(t[7]), gx |-> BFromHex(t[8]), gy |-> BFromHex(t[9]),
        bits |-> DecInt(t[10]) ]
\* interned constants of the whole trace (moduli and curve parameter sets)
ConstEvents == {i \in DOMAIN Log : Log[i].k # << >>}
Consts == TLCEval([k \in UNION {{Log[i].k[j][1] : j \in DOMAIN Log[i].k} : i \in ConstEvents} |->
            LET i == CHOOSE i \in ConstEvents : \E j \in DOMAIN Log[i].k : Log[i].k[j][1] = k
                j == CHOOSE j \in DOMAIN Log[i].k : Log[i].k[j][1] = k
            IN ParseConst(Log[i].k[j])])
\* a point of the curve with key kc: flag, x, y
ParsePt(T, kc, o, x, y) == IF o = "1" THEN Inf ELSE Aff(BFromHex(x), BFromHex(y))
ParseObj(T, c) ==
  CASE c[2] = "un" -> Undef
    [] c[2] = "fe" -> [k |-> "fe", m |-> c[3], v |-> BFromHex(c[4])]
    [] c[2] = "cv" -> [k |-> "cv", c |-> c[3]]
    [] c[2] = "pt" -> [k |-> "pt", c |-> c[3], P |-> ParsePt(T, c[3], c[4], c[5], c[6])]
    [] c[2] = "sc" -> [k |-> "sc", c |-> c[3], hsz |-> DecInt(c[4])]
    [] c[2] = "sg" -> [k |-> "sg", c |-> c[3], hsz |-> DecInt(c[4]), r |-> BFromHex(c[5]), s |-> BFromHex(c[6])]
    [] c[2] = "ct" -> [k |-> "ct", c |-> c[3], C |-> ParsePt(T, c[3], c[4], c[5], c[6]),
                                   c2 |-> c[7], D |-> ParsePt(T, c[7], c[8], c[9], c[10])]
\* handles in the change list, those that disappeared, and the new object map
Changed(e) == {e.c[i][1] : i \in DOMAIN e.c}
Gone(e)    == {e.c[i][1] : i \in {j \in DOMAIN e.c : e.c[j][2] = "gone"}}
NewObj(T, e) ==
  [h \in (DOMAIN obj \cup Changed(e)) \ Gone(e) |->
     IF h \in Changed(e) THEN ParseObj(T, e.c[CHOOSE i \in DOMAIN e.c : e.c[i][1] = h])
     ELSE obj[h]]

\* ---- what an operation may write -------------------------------------------
NoWrite == {"fcmp", "fcmpui", "fcmpz", "ftst", "fget", "fsame", "zrand", "held", "ccheck", "ccmp", "clist",
            "pbset", "pcmp", "pgetf", "pgetz", "penc", "verify", "sexp", "sexps",
            "tload", "tfree", "tadd", "tun", "tself", "tcmp", "tmul", "tenc", "tdec", "tver", "timp", "ttab"}
Writes(e) == CASE e.op \in NoWrite -> {}
               [] e.op \in {"fswap", "fcswap", "pswap", "pcswap"} -> {e.a[1], e.a[2]}
               [] OTHER -> {e.a[1]}

Hx(s) == BFromHex(s)
RInt(e, i) == BFromHex(e.r[i])
Ok(e)   == e.r[1] = "0"

\* ---- table operations: spec-side helpers ------------------------------------
Idx(P) == IF \E i \in 1..Len(pts.P) : pts.P[i] = P
          THEN CHOOSE i \in 1..Len(pts.P) : pts.P[i] = P ELSE -1
At(i) == IF i < 1 \/ i > Len(pts.P) THEN [o |-> FALSE, x |-> <<-1>>, y |-> <<-1>>] ELSE pts.P[i]

SmallV(i) == BFromInt(i)

\* ---- the operations -----------------------------------------------------------
\* O: objects before, N: objects after, T: constants.  e.a = arguments.
Fe(O, h) == O[h].v
Md(T, O, h) == T[O[h].m].p
Cv(T, O, h) == T[O[h].c]
\* destination d now holds the element v of the field of modulus key m
\* (bits is redundant: the bit length of p)
SameCurve(c1, c2) == [c1 EXCEPT !.bits = 0] = [c2 EXCEPT !.bits = 0]
FeIs(N, d, m, v) == N[d] = [k |-> "fe", m |-> m, v |-> v]
PtIs(N, d, c, P) == N[d] = [k |-> "pt", c |-> c, P |-> P]

FieldOp(e, O, N, T) ==
  LET d == e.a[1]
      s == e.a[2]
      p == Md(T, O, s)
      x == Fe(O, s)
      keep(v) == FeIs(N, d, O[s].m, v)
  IN CASE e.op = "fset"   -> keep(x)
       [] e.op = "fadd"   -> keep(MAdd(x, Fe(O, e.a[3]), p))
       [] e.op = "fsub"   -> keep(MSub(x, Fe(O, e.a[3]), p))
       [] e.op = "fmul"   -> keep(MMul(x, Fe(O, e.a[3]), p))
       [] e.op = "faddui" -> keep(MAdd(x, Hx(e.a[3]), p))
       [] e.op = "fsubui" -> keep(MSub(x, Hx(e.a[3]), p))
       [] e.op = "fmului" -> keep(MMul(x, Hx(e.a[3]), p))
       [] e.op = "fsqr"   -> keep(MSqr(x, p))
       [] e.op = "fneg"   -> keep(MNeg(x, p))
       [] e.op \in {"fpow", "fpowui"} -> keep(MPowZ(x, Hx(e.a[3]), p))
       [] e.op = "finv"   -> IF Ok(e) THEN /\ x # B0
                                           /\ N[d].k = "fe" /\ N[d].m = O[s].m
                                           /\ IsInverse(N[d].v, x, p)
                             ELSE x = B0 /\ N[d] = Undef
       [] e.op = "fsqrt"  -> IF Ok(e) THEN /\ N[d].k = "fe" /\ N[d].m = O[s].m
                                           /\ IsRoot(N[d].v, x, p)
                             ELSE ~IsSquare(x, p) /\ N[d] = Undef

FieldSet(e, O, N, T) ==      \* d := integer modulo a given prime
  LET d == e.a[1] IN
  /\ N[d].k = "fe"
  /\ T[N[d].m].p = Hx(e.a[2])
  /\ IF e.op = "frand" THEN IsResidue(N[d].v, Hx(e.a[2]))
     ELSE N[d].v = BMod(Hx(e.a[3]), Hx(e.a[2]))

FieldQuery(e, O, N, T) ==
  LET x == Fe(O, e.a[1]) IN
  CASE e.op = "fcmp"   -> RInt(e, 1) = BFromInt(BCmp(x, Fe(O, e.a[2])))
    [] e.op = "fcmpui" -> Ok(e) <=> x = Hx(e.a[2])
    [] e.op = "fcmpz"  -> Ok(e) <=> x = Hx(e.a[2])
    [] e.op = "ftst"   -> RInt(e, 1) = BFromInt(BBit(x, DecInt(e.a[2])))
    [] e.op = "fget"   -> RInt(e, 1) = x
    [] e.op = "fsame"  -> RInt(e, 1) = (IF Md(T, O, e.a[1]) = Hx(e.a[2]) THEN B1 ELSE B0)

Swapped(e, O, N) == N[e.a[1]] = O[e.a[2]] /\ N[e.a[2]] = O[e.a[1]]
SwapOp(e, O, N) == IF e.op \in {"fswap", "pswap"} \/ DecInt(e.a[3]) # 0
                   THEN Swapped(e, O, N)
                   ELSE N[e.a[1]] = O[e.a[1]] /\ N[e.a[2]] = O[e.a[2]]

CurveDef(e) == [t |-> e.a[3], p |-> Hx(e.a[4]), a |-> BMod(Hx(e.a[5]), Hx(e.a[4])), b |-> BMod(Hx(e.a[6]), Hx(e.a[4])),
                n |-> Hx(e.a[7]), h |-> Hx(e.a[8]), gx |-> Hx(e.a[9]), gy |-> Hx(e.a[10]), bits |-> DecInt(e.a[11])]

CurveOp(e, O, N, T) ==
  LET d == e.a[1] IN
  CASE e.op = "cset"   -> N[d] = O[e.a[2]]
    [] e.op = "cdef"   -> LET c == CurveDef(e) IN
                          IF Satisfies(c, c.gx, c.gy)
                          THEN Ok(e) /\ N[d].k = "cv" /\ T[N[d].c] = c
                          ELSE ~Ok(e) /\ N[d] = Undef
    [] e.op = "ccheck" -> (~Ok(e)) <=> Satisfies(Cv(T, O, d), Hx(e.a[2]), Hx(e.a[3]))
    [] e.op = "ccmp"   -> LET c1 == Cv(T, O, d)  c2 == Cv(T, O, e.a[2])
                          IN Ok(e) <=> SameCurve(c1, c2)
    [] e.op = "clist"  -> /\ Len(e.r) = Len(NamedCurves)
                          /\ {e.r[i] : i \in DOMAIN e.r} = {NamedCurves[i][1] : i \in DOMAIN NamedCurves}

PointOp(e, O, N, T) ==
  LET d == e.a[1]
      s == e.a[2]
      kc == O[s].c
      c == T[kc]
      P == O[s].P
      Q == O[e.a[3]].P
      is(R) == PtIs(N, d, kc, R)
  IN CASE e.op = "pset"   -> is(P)
       [] e.op = "pneut"  -> is(Neutral(c))
       [] e.op = "padd"   -> is(Add(c, P, Q))
       [] e.op = "psub"   -> is(Sub(c, P, Q))
       [] e.op = "pdbl"   -> is(Add(c, P, P))
       [] e.op = "pneg"   -> is(Neg(c, P))
       [] e.op \in {"pmul", "pbmul"}   -> is(SMul(c, Fe(O, e.a[3]), P))
       [] e.op \in {"pmulz", "pbmulz"} -> is(SMulZ(c, Hx(e.a[3]), P))
       [] e.op = "prand"  -> /\ N[d].k = "pt" /\ N[d].c = kc
                             /\ OnCurve(c, N[d].P)
                             /\ IsNeutral(c, SMul(c, c.n, N[d].P))

PointSet(e, O, N, T) ==
  LET d == e.a[1]  kc == O[e.a[4]].c  c == T[kc]
  IN CASE e.op = "psetz" -> PtIs(N, d, kc, Aff(BMod(Hx(e.a[2]), c.p), BMod(Hx(e.a[3]), c.p)))
       [] e.op = "psetf" -> PtIs(N, d, kc, Aff(Fe(O, e.a[2]), Fe(O, e.a[3])))

DecodeOp(e, O, N, T) ==
  LET d == e.a[1]
      kc == O[e.a[3]].c
      c == T[kc]
      txt == HexBytes(e.a[2])                        \* pdecs: the text's character codes
      bytes == IF e.a[2] = "-" THEN << >>
               ELSE IF e.op = "pdec" THEN HexBytes(e.a[2])
               ELSE IF IsHexText(txt) THEN HexTextBytes(txt) ELSE << >>
      good == Len(bytes) > 0 /\ Decodable(c, bytes)
  IN IF good THEN Ok(e) /\ N[d].k = "pt" /\ N[d].c = kc /\ DecodesTo(c, bytes, N[d].P)
     ELSE ~Ok(e) /\ N[d] = O[d]

PointQuery(e, O, N, T) ==
  LET h == e.a[1]
      c == Cv(T, O, h)
      P == O[h].P
  IN CASE e.op = "pbset" -> TRUE
       [] e.op = "pcmp"  -> LET g == e.a[2] IN Ok(e) <=> (SameCurve(c, T[O[g].c]) /\ P = O[g].P)
       [] e.op = "pgetz" -> P.o \/ (RInt(e, 1) = P.x /\ RInt(e, 2) = P.y)
       [] e.op = "pgetf" -> P.o \/ (RInt(e, 1) = c.p /\ RInt(e, 2) = P.x /\ RInt(e, 3) = c.p /\ RInt(e, 4) = P.y)
       [] e.op = "penc"  -> LET enc == Encode(c, P, DecInt(e.a[2]) # 0)
                            IN IF e.a[3] = "bin"
                               THEN RInt(e, 1) = BFromInt(Len(enc)) /\ HexBytes(e.r[2]) = enc
                               ELSE /\ RInt(e, 1) = BFromInt(2 * Len(enc)) /\ RInt(e, 2) = BFromInt(2 * Len(enc))
                                    /\ StrCodes(e.r[3]) = HexTextOf(enc)

SchemeOp(e, O, N, T) ==
  LET d == e.a[1] IN
  CASE e.op = "sch"  -> Ok(e) /\ N[d] = [k |-> "sc", c |-> O[e.a[2]].c, hsz |-> DecInt(e.a[3])]
    [] e.op = "sign" ->
         LET sc == O[e.a[2]]  c == T[sc.c]  key == Fe(O, e.a[3])
         IN IF e.a[4] = "-" \/ Md(T, O, e.a[3]) # c.n THEN ~Ok(e) /\ d \notin DOMAIN N
            ELSE LET m == DigestInt(Digest(HexBytes(e.a[4]), sc.hsz), c.n)
                 IN /\ Ok(e) /\ d \in DOMAIN N
                    /\ N[d].k = "sg" /\ N[d].c = sc.c /\ N[d].hsz = sc.hsz
                    /\ Verifies(c, SMul(c, key, Gen(c)), m, N[d].r, N[d].s)
    [] e.op = "verify" ->
         LET g == O[d]  c == T[g.c]  Q == O[e.a[2]]
         IN IF e.a[3] = "-" \/ ~SameCurve(c, T[Q.c]) THEN ~Ok(e)
            ELSE LET m == DigestInt(Digest(HexBytes(e.a[3]), g.hsz), c.n)
                 IN Ok(e) <=> Verifies(c, Q.P, m, g.r, g.s)
    [] e.op = "sexp"  -> HexBytes(e.r[1]) = SigEncode(T[O[d].c].n, O[d].r, O[d].s)
    [] e.op = "sexps" -> StrCodes(e.r[1]) = HexTextOf(SigEncode(T[O[d].c].n, O[d].r, O[d].s))
    [] e.op \in {"simp", "simps"} ->
         LET sc == O[e.a[2]]  n == T[sc.c].n
             txt == HexBytes(e.a[3])
             b == IF e.a[3] = "-" THEN << >>
                  ELSE IF e.op = "simp" THEN txt
                  ELSE IF IsHexText(txt) THEN HexTextBytes(txt) ELSE << >>
         IN IF Len(b) > 0 /\ SigDecodable(n, b)
            THEN Ok(e) /\ d \in DOMAIN N
                 /\ N[d] = [k |-> "sg", c |-> sc.c, hsz |-> sc.hsz, r |-> SigDecR(n, b), s |-> SigDecS(n, b)]
            ELSE ~Ok(e) /\ d \notin DOMAIN N
    [] e.op = "enc"  ->
         LET pk == O[e.a[2]]  pt == O[e.a[3]]  c == T[pk.c]
         IN IF ~SameCurve(c, T[pt.c]) THEN ~Ok(e) /\ d \notin DOMAIN N
            ELSE /\ Ok(e) /\ d \in DOMAIN N
                 /\ N[d].k = "ct" /\ N[d].c = pk.c /\ N[d].c2 \in {pk.c, pt.c}
                 /\ OnCurve(c, N[d].C) /\ OnCurve(c, N[d].D)
                 \* C = kG for some k # 0; for small orders the relation with D is checked for that k
                 /\ ~IsNeutral(c, N[d].C) /\ IsNeutral(c, SMul(c, c.n, N[d].C))
                 \* the secret key d of pk, when the script gives it: then k*pk = d*(k*G) = d*C
                 /\ (Len(e.a) = 4 /\ pk.P = SMul(c, Fe(O, e.a[4]), Gen(c))
                       => N[d].D = Add(c, pt.P, SMul(c, Fe(O, e.a[4]), N[d].C)))
                 /\ (BBitLen(c.n) <= 12 =>
                       \E i \in 1..(BToInt(c.n) - 1) :
                          /\ N[d].C = ElgamalC(c, BFromInt(i))
                          /\ N[d].D = ElgamalD(c, BFromInt(i), pk.P, pt.P))
    [] e.op = "ctmake" -> LET A == O[e.a[2]]  B == O[e.a[3]]
                          IN N[d] = [k |-> "ct", c |-> A.c, C |-> A.P, c2 |-> B.c, D |-> B.P]
    [] e.op = "dec"  ->
         LET ct == O[e.a[3]]  c == T[ct.c]
         IN IF Md(T, O, e.a[2]) # c.n \/ ~SameCurve(c, T[ct.c2]) THEN ~Ok(e) /\ d \notin DOMAIN N
            ELSE Ok(e) /\ d \in DOMAIN N /\ PtIs(N, d, ct.c, ElgamalDec(c, Fe(O, e.a[2]), ct.C, ct.D))

\* ---- tables (exhaustive, small curves and fields) ----------------------------
TC(T) == T[pts.c]
TabOp(e, O, T) ==
  LET c == TC(T)
      np == Len(pts.P)
      want2(F(_, _)) == /\ Len(e.r) = np * np
                        /\ \A i, j \in 1..np : At(e.r[(i - 1) * np + j]) = F(pts.P[i], pts.P[j])
      want1(F(_)) == Len(e.r) = np /\ \A i \in 1..np : At(e.r[i]) = F(pts.P[i])
      add(P, Q) == Add(c, P, Q)
      sub(P, Q) == Sub(c, P, Q)
      dbl(P) == Add(c, P, P)
      neg(P) == Neg(c, P)
      zero(P) == Neutral(c)
  IN CASE e.op = "tadd"  -> IF e.a[1] = "sub" THEN want2(sub) ELSE want2(add)
       [] e.op = "tun"   -> IF e.a[1] = "neg" THEN want1(neg) ELSE want1(dbl)
       [] e.op = "tself" -> IF e.a[1] = "sub" THEN want1(zero) ELSE want1(dbl)
       [] e.op = "tcmp"  -> /\ Len(e.r) = np * np
                            /\ \A i, j \in 1..np : e.r[(i - 1) * np + j] = (IF i = j THEN 1 ELSE 0)
       [] e.op = "tmul"  -> LET n == BToInt(c.n) IN
                            /\ Len(e.r) = np * n
                            /\ \A i \in 1..np :
                                 /\ At(e.r[(i - 1) * n + 1]) = Neutral(c)
                                 /\ \A k \in 1..(n - 1) :
                                      At(e.r[(i - 1) * n + k + 1]) = Add(c, At(e.r[(i - 1) * n + k]), pts.P[i])
       [] e.op = "tenc"  -> Len(e.r) = np /\ \A i \in 1..np : HexBytes(e.r[i]) = Encode(c, pts.P[i], DecInt(e.a[1]) # 0)
       [] e.op = "tdec"  ->
            LET len == DecInt(e.a[1])
                firsts == {BToInt(Hx(e.a[k])) : k \in 2..Len(e.a)}
                accepted == {SubSeq(e.r[k], 1, len) : k \in DOMAIN e.r}
                encodings == {en \in {Encode(c, pts.P[i], z) : i \in 1..np, z \in BOOLEAN} :
                                 Len(en) = len /\ en[1] \in firsts}
                             \cup {z \in {[k \in 1..len |-> 0]} : 0 \in firsts /\ Decodable(c, z)}
            IN /\ accepted = encodings
               /\ \A k \in DOMAIN e.r : DecodesTo(c, SubSeq(e.r[k], 1, len), At(e.r[k][len + 1]))
       [] e.op = "tver"  ->
            LET n == BToInt(c.n)
                m == BMod(DigestInt(Digest(HexBytes(e.a[2]), DecInt(e.a[1])), c.n), c.n)
                mulG == TLCEval([k \in 0..(n - 1) |-> SMul(c, BFromInt(k), Gen(c))])
                acc(i) == TLCEval(LET Q == pts.P[i]
                              mulQ == TLCEval([k \in 0..(n - 1) |-> SMul(c, BFromInt(k), Q)])
                          IN {<<i, r, s>> : <<r, s>> \in {rs \in (1..(n - 1)) \X (1..(n - 1)) :
                                LET w == MInv(BFromInt(rs[2]), c.n)
                                    X == Add(c, mulG[BToInt(MMul(m, w, c.n))],
                                                mulQ[BToInt(MMul(BFromInt(rs[1]), w, c.n))])
                                IN ~IsNeutral(c, X) /\ BMod(X.x, c.n) = BFromInt(rs[1])}})
            IN {<<e.r[k][1], e.r[k][2], e.r[k][3]>> : k \in DOMAIN e.r} = UNION {acc(i) : i \in 1..np}
       [] e.op = "timp"  ->
            LET len == DecInt(e.a[1])
                n == BToInt(c.n)
            IN {e.r[k] : k \in DOMAIN e.r} =
                 (IF len # 2 * SigWidth(c.n) THEN {}
                  ELSE {SigEncode(c.n, BFromInt(r), BFromInt(s)) \o <<r, s>> : r, s \in 1..(n - 1)})

FieldTab(e) ==
  LET p == BToInt(Hx(e.a[1]))
      P == Hx(e.a[1])
      o == e.a[2]
      un == o \in {"inv", "sqrt", "sqr", "neg"}
      two(i, j) == e.r[i * p + j + 1]
      one(i) == e.r[i + 1]
      sq == {(i * i) % p : i \in 0..(p - 1)}
  IN /\ Len(e.r) = IF un THEN p ELSE p * p
     /\ CASE o \in {"add", "addui"} -> \A i, j \in 0..(p - 1) : two(i, j) = (i + j) % p
          [] o \in {"sub", "subui"} -> \A i, j \in 0..(p - 1) : two(i, j) = (i - j) % p
          [] o \in {"mul", "mului"} -> \A i, j \in 0..(p - 1) : two(i, j) = (i * j) % p
          [] o = "powui" -> \A i \in 0..(p - 1) : two(i, 0) = 1 % p
                               /\ \A j \in 1..(p - 1) : two(i, j) = (two(i, j - 1) * i) % p
          [] o = "cmp" -> \A i, j \in 0..(p - 1) : two(i, j) = (IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0)
          [] o = "sqr" -> \A i \in 0..(p - 1) : one(i) = (i * i) % p
          [] o = "neg" -> \A i \in 0..(p - 1) : one(i) = (-i) % p
          [] o = "inv" -> one(0) = -1 /\ \A i \in 1..(p - 1) : one(i) \in 1..(p - 1) /\ (one(i) * i) % p = 1
          [] o = "sqrt" -> \A i \in 0..(p - 1) :
                IF i \in sq THEN one(i) \in 0..(p - 1) /\ (one(i) * one(i)) % p = i ELSE one(i) = -1

\* ---- dispatch -------------------------------------------------------------------
Post(e, O, N, T) ==
  CASE e.op \in {"finit", "finitfp", "cinit", "pinit"} -> N[e.a[1]] = Undef
    [] e.op \in {"fclear", "cclear", "pclear", "schclear", "sigclear", "ctclear"} -> e.a[1] \notin DOMAIN N
    [] e.op \in {"fsetz", "fsetzfp", "fsetui", "fsetuifp", "frand"} -> FieldSet(e, O, N, T)
    [] e.op \in {"fset", "fadd", "fsub", "fmul", "faddui", "fsubui", "fmului", "fsqr", "fneg",
                 "fpow", "fpowui", "finv", "fsqrt"} -> FieldOp(e, O, N, T)
    [] e.op \in {"fcmp", "fcmpui", "fcmpz", "ftst", "fget", "fsame"} -> FieldQuery(e, O, N, T)
    [] e.op \in {"fswap", "fcswap", "pswap", "pcswap"} -> SwapOp(e, O, N)
    [] e.op = "held" -> e.r[1] = e.a[1]
    [] e.op = "zrand" -> IsResidue(RInt(e, 1), Hx(e.a[1]))
    [] e.op \in {"cset", "cdef", "ccheck", "ccmp", "clist"} -> CurveOp(e, O, N, T)
    [] e.op \in {"pset", "pneut", "padd", "psub", "pdbl", "pneg", "pmul", "pmulz", "pbmul", "pbmulz", "prand"}
         -> PointOp(e, O, N, T)
    [] e.op \in {"psetz", "psetf"} -> PointSet(e, O, N, T)
    [] e.op \in {"pdec", "pdecs"} -> DecodeOp(e, O, N, T)
    [] e.op \in {"pbset", "pcmp", "pgetf", "pgetz", "penc"} -> PointQuery(e, O, N, T)
    [] e.op \in {"sch", "sign", "verify", "sexp", "sexps", "simp", "simps", "enc", "ctmake", "dec"}
         -> SchemeOp(e, O, N, T)
    [] e.op = "ttab" -> FieldTab(e)
    [] e.op = "tfree" -> TRUE
    [] e.op \in {"tadd", "tun", "tself", "tcmp", "tmul", "tenc", "tdec", "tver", "timp"} -> TabOp(e, O, T)

\* tload: the driver rebuilds each point in a second representation; it must be the same point
LoadPts(e, T, O) ==
  [c |-> O[e.a[1]].c,
   P |-> [i \in 1..((Len(e.a) - 1) \div 2) |->
            IF e.a[2 * i] = "inf" THEN Neutral(T[O[e.a[1]].c])
            ELSE Aff(Hx(e.a[2 * i]), Hx(e.a[2 * i + 1]))]]

Init == /\ l = 1
        /\ obj = [h \in {} |-> Undef]
        /\ pts = [c |-> "", P |-> << >>]

Step == /\ l <= Len(Log)
        /\ LET e == Log[l]
               T == Consts
               N == NewObj(T, e)
           IN /\ e.op \notin {"CRASH", "cnamed"}
              /\ Changed(e) \subseteq Writes(e)
              /\ IF e.op = "tload"
                 THEN /\ pts' = LoadPts(e, T, obj)
                      /\ \A i \in 1..Len(pts'.P) : e.r[i] = i
                 ELSE /\ Post(e, obj, N, T)
                      /\ pts' = pts
              /\ obj' = N
              /\ l' = l + 1

\* Selecting a named curve: exactly the published parameters, or refusal of a
\* name that is not published.
NamedStep == /\ l <= Len(Log)
             /\ LET e == Log[l]
                    T == Consts
                    N == NewObj(T, e)
                    name == HexBytes(e.a[2])
                    rows == {i \in DOMAIN NamedCurves : StrCodes(NamedCurves[i][1]) = name}
                IN /\ e.op = "cnamed"
                   /\ Changed(e) \subseteq {e.a[1]}
                   /\ IF rows = {} THEN ~Ok(e) /\ N[e.a[1]] = obj[e.a[1]]
                      ELSE /\ Ok(e) /\ N[e.a[1]].k = "cv"
                           /\ T[N[e.a[1]].c] = NamedRow(CHOOSE i \in rows : TRUE)
                   /\ obj' = N /\ pts' = pts /\ l' = l + 1

Next == Step \/ NamedStep
Spec == Init /\ [][Next]_vars

\* Invariants of the abstract state, evaluated after every call
WellFormed ==
  \A h \in DOMAIN obj :
     LET o == obj[h] IN
     CASE o.k = "fe" -> IsResidue(o.v, Consts[o.m].p)
       [] o.k = "pt" -> OnCurve(Consts[o.c], o.P)
       [] o.k = "sg" -> InRange1(o.r, Consts[o.c].n) /\ InRange1(o.s, Consts[o.c].n)
       [] OTHER -> TRUE

Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
