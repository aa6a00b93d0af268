------------------------------ MODULE Binding -------------------------------
(***************************************************************************)
(* The language bindings (Python module, Go package) as state machines     *)
(* over the same abstract values as EccTrace: every result is a new value  *)
(* under a new (or reassigned) name, or an exception which changes         *)
(* nothing.  Operands are tagged: a live object, an integer of any size    *)
(* and sign, octets, text, or something of an unrelated type.              *)
(***************************************************************************)
EXTENDS EccTrace

\* what an operand denotes
V(O, o) == CASE o[1] = "h" -> O[o[2]]
             [] o[1] = "i" -> [k |-> "int", v |-> Hx(o[2])]
             [] o[1] = "b" -> [k |-> "by", b |-> IF o[2] = "-" THEN << >> ELSE HexBytes(o[2])]
             [] o[1] = "t" -> [k |-> "tx", b |-> IF o[2] = "-" THEN << >> ELSE HexBytes(o[2])]
             [] o[1] = "H" -> [k |-> "hm", sz |-> DecInt(o[2])]       \* a usable hash module
             [] OTHER -> [k |-> "x"]
\* an internal error of the binding (SystemError) is not a report to the caller
NoReport == {"SystemError", "MemoryError", "AssertionError", "panic", "runtime"}
Raised(e) == e.r[1] = "exc" /\ e.r[2] \notin NoReport /\ Changed(e) = {}
Is(e, N, v) == e.r[1] = "ok" /\ e.a[1] \in DOMAIN N /\ N[e.a[1]] = v
Nothing(e) == e.r[1] = "none" /\ Changed(e) = {}
Answer(e, b) == e.r = <<"ok", IF b THEN "1" ELSE "0">>
FeV(m, v) == [k |-> "fe", m |-> m, v |-> v]
PtV(c, P) == [k |-> "pt", c |-> c, P |-> P]

\* integers act on the group modulo n; for points outside the subgroup of order n
\* a negative multiple may also be formed by negating the positive one
Multiples(c, s, P) == {SMulZ(c, s, P)} \cup (IF BSgn(s) < 0 THEN {Neg(c, SMulZ(c, BNeg(s), P))} ELSE {})

BinOp(e, O, N, T) ==
  LET a == V(O, e.a[2])  b == V(O, e.a[3])
      fe(m, x, y) == LET p == T[m].p IN
        Is(e, N, FeV(m, CASE e.op = "add" -> MAdd(x, y, p) [] e.op = "sub" -> MSub(x, y, p) [] e.op = "mul" -> MMul(x, y, p)))
      rd(v, m) == BMod(v, T[m].p)
      pt(P, Q) == /\ e.r[1] = "ok" /\ e.a[1] \in DOMAIN N
                  /\ LET R == IF e.op = "add" THEN Add(T[P.c], P.P, Q.P) ELSE Sub(T[P.c], P.P, Q.P)
                     IN N[e.a[1]] \in {PtV(P.c, R), PtV(Q.c, R)}
      mul(P, s) == e.r[1] = "ok" /\ e.a[1] \in DOMAIN N /\ \E R \in Multiples(T[P.c], s, P.P) : N[e.a[1]] = PtV(P.c, R)
  IN CASE a.k = "fe" /\ b.k = "fe"  -> IF T[a.m].p = T[b.m].p THEN fe(a.m, a.v, b.v) ELSE Raised(e)
       [] a.k = "fe" /\ b.k = "int" -> fe(a.m, a.v, rd(b.v, a.m))
       [] a.k = "int" /\ b.k = "fe" -> fe(b.m, rd(a.v, b.m), b.v)
       [] e.op # "mul" /\ a.k = "pt" /\ b.k = "pt" -> IF SameCurve(T[a.c], T[b.c]) THEN pt(a, b) ELSE Raised(e)
       [] e.op = "mul" /\ a.k = "pt" /\ b.k \in {"fe", "int"} -> mul(a, b.v)
       [] e.op = "mul" /\ b.k = "pt" /\ a.k \in {"fe", "int"} -> mul(b, a.v)
       [] OTHER -> Raised(e)

\* exponents of up to 64 bits are accepted; others may be, and must then be right
PowOp(e, O, N, T) ==
  LET a == V(O, e.a[2])  b == V(O, e.a[3])
      p == T[a.m].p
      word == BFromInt(1073741824)
  IN IF ~(a.k = "fe" /\ b.k = "int" /\ Len(e.a) = 3) THEN Raised(e)
     ELSE IF BSgn(b.v) >= 0
     THEN \/ Is(e, N, FeV(a.m, MPowZ(a.v, b.v, p)))
          \/ BBitLen(b.v) > 64 /\ Raised(e)
     ELSE \/ Raised(e)
          \/ a.v # B0 /\ Is(e, N, FeV(a.m, MPowZ(MInv(a.v, p), BNeg(b.v), p)))

UnOp(e, O, N, T) ==
  LET a == V(O, e.a[2])  p == T[a.m].p  d == e.a[1]
  IN CASE e.op = "neg" /\ a.k = "fe" -> Is(e, N, FeV(a.m, MNeg(a.v, p)))
       [] e.op = "neg" /\ a.k = "pt" -> Is(e, N, PtV(a.c, Neg(T[a.c], a.P)))
       [] e.op = "inv" /\ a.k = "fe" -> IF a.v = B0 THEN Nothing(e)
                                        ELSE Is(e, N, N[d]) /\ N[d].k = "fe" /\ N[d].m = a.m /\ IsInverse(N[d].v, a.v, p)
       [] e.op = "sqrt" /\ a.k = "fe" -> IF IsSquare(a.v, p)
                                         THEN Is(e, N, N[d]) /\ N[d].k = "fe" /\ N[d].m = a.m /\ IsRoot(N[d].v, a.v, p)
                                         ELSE Nothing(e)
       \* evaluating the printed form gives the same value
       [] e.op = "repr" /\ a.k \in {"fe", "cv", "pt", "ct"} ->
            IF a.k = "ct" THEN e.r[1] = "ok" /\ N[d] = [a EXCEPT !.c2 = a.c] ELSE Is(e, N, a)
       [] OTHER -> Raised(e)

Same(T, a, b) ==
  CASE a.k = "fe" /\ b.k = "fe" -> T[a.m].p = T[b.m].p /\ a.v = b.v
    [] a.k = "fe" /\ b.k = "int" -> a.v = b.v
    [] a.k = "int" /\ b.k = "fe" -> a.v = b.v
    [] a.k = "cv" /\ b.k = "cv" -> SameCurve(T[a.c], T[b.c])
    [] a.k = "pt" /\ b.k = "pt" -> SameCurve(T[a.c], T[b.c]) /\ a.P = b.P
    [] OTHER -> FALSE

CoefNames(t) == CASE t = "ws" -> <<"a", "b">> [] t = "ed" -> <<"c", "d">> [] t = "mo" -> <<"B", "A">> [] t = "te" -> <<"a", "d">>
FormName(t) == CASE t = "ws" -> "ShortWeierstrass" [] t = "ed" -> "Edwards" [] t = "mo" -> "Montgomery" [] t = "te" -> "TwistedEdwards"
AttrOp(e, c) ==
  LET is(v) == e.r[1] = "ok" /\ Len(e.r) = 2 /\ RInt(e, 2) = v
      nm == e.a[2]
  IN CASE nm = "p" -> is(c.p) [] nm = "n" -> is(c.n) [] nm = "h" -> is(c.h)
       [] nm = "bits" -> is(BFromInt(c.bits))
       [] nm = "G" -> e.r[1] = "ok" /\ Len(e.r) = 3 /\ RInt(e, 2) = c.gx /\ RInt(e, 3) = c.gy
       [] nm = "ctype" -> e.r = <<"ok", FormName(c.t)>>
       [] nm = CoefNames(c.t)[1] -> is(c.a)
       [] nm = CoefNames(c.t)[2] -> is(c.b)
       [] OTHER -> Raised(e)

Upper(s) == HexTextOf(s)
QueryOp(e, O, T) ==
  LET a == V(O, e.a[1]) IN
  CASE e.op = "eq" -> Answer(e, Same(T, a, V(O, e.a[2])))
    [] e.op = "ne" -> Answer(e, ~Same(T, a, V(O, e.a[2])))
    [] e.op \in {"lt", "le", "gt", "ge", "setattr", "bad"} -> Raised(e)
    [] e.op = "int" -> IF a.k = "fe" THEN e.r[1] = "ok" /\ RInt(e, 2) = a.v ELSE Raised(e)
    [] e.op = "str" -> CASE a.k = "pt" -> e.r[1] = "ok" /\ HexBytes(e.r[2]) = HexTextOf(Encode(T[a.c], a.P, TRUE))
                         [] a.k = "sg" -> e.r[1] = "ok" /\ HexBytes(e.r[2]) = HexTextOf(SigEncode(T[a.c].n, a.r, a.s))
                         [] a.k = "ct" -> e.r[1] = "ok" /\ HexBytes(e.r[2]) =
                              <<40>> \o HexTextOf(Encode(T[a.c], a.C, TRUE)) \o <<44, 32>> \o HexTextOf(Encode(T[a.c2], a.D, TRUE)) \o <<41>>
                         [] OTHER -> e.r[1] = "ok"
    [] e.op \in {"compressed", "uncompressed"} -> IF a.k # "pt" THEN Raised(e)
                         ELSE e.r[1] = "ok" /\ HexBytes(e.r[2]) = Encode(T[a.c], a.P, e.op = "compressed")
    [] e.op = "strfull" -> IF a.k # "pt" THEN Raised(e)
                         ELSE e.r[1] = "ok" /\ HexBytes(e.r[2]) = HexTextOf(Encode(T[a.c], a.P, FALSE))
    [] e.op = "asbytes" -> IF a.k # "sg" THEN Raised(e) ELSE e.r[1] = "ok" /\ HexBytes(e.r[2]) = SigEncode(T[a.c].n, a.r, a.s)
    [] e.op = "affine" -> IF a.k # "pt" THEN Raised(e)
                          ELSE e.r[1] = "ok" /\ (a.P.o \/ (RInt(e, 2) = a.P.x /\ RInt(e, 3) = a.P.y))
    [] e.op = "attr" -> IF a.k = "cv" THEN AttrOp(e, T[a.c]) ELSE Raised(e)
    [] e.op = "check" ->
         LET x == V(O, e.a[2])  y == V(O, e.a[3])
         IN IF a.k # "cv" \/ x.k # "int" \/ y.k # "int" THEN Raised(e)
            ELSE \/ Answer(e, Satisfies(T[a.c], BMod(x.v, T[a.c].p), BMod(y.v, T[a.c].p)))
                 \/ (BSgn(x.v) < 0 \/ BSgn(y.v) < 0) /\ Raised(e)
    [] e.op = "setup" -> IF a.k = "pt" THEN e.r[1] = "none" /\ Changed(e) = {} ELSE Raised(e)
    [] e.op = "isneutral" -> IF a.k = "pt" THEN Answer(e, IsNeutral(T[a.c], a.P)) ELSE Raised(e)
    [] e.op = "bit" -> IF a.k = "fe" THEN e.r[1] = "ok" /\ RInt(e, 2) = BFromInt(BBit(a.v, DecInt(e.a[2]))) ELSE Raised(e)
    [] e.op = "cmp" ->      \* Go: three-way comparison of field elements, equality of curves and points
         LET b == V(O, e.a[2]) IN
         IF a.k = "fe" /\ b.k = "fe" /\ T[a.m].p = T[b.m].p
         THEN e.r[1] = "ok" /\ RInt(e, 2) = BFromInt(BCmp(a.v, b.v))
         ELSE e.r[1] = "ok" /\ (RInt(e, 2) = B0 <=> Same(T, a, b))
    [] e.op = "order" -> IF a.k = "fe" THEN e.r[1] = "ok" /\ RInt(e, 2) = T[a.m].p ELSE Raised(e)
    [] e.op = "names" -> /\ Len(e.r) = Len(NamedCurves) + 1
                         /\ {e.r[i] : i \in 2..Len(e.r)} = {NamedCurves[i][1] : i \in DOMAIN NamedCurves}

\* ---- constructors
Field(v) == v.k = "int" /\ BSgn(v.v) > 0 /\ v.v # B1 /\ BBitLen(v.v) <= 1024
NewOp(e, O, N, T) ==
  LET d == e.a[1]
      arg(i) == V(O, e.a[i])
      n == Len(e.a) - 1
      sole(k) == n = 1 /\ arg(2).k = k
  IN CASE e.op = "fe" -> IF n = 2 /\ arg(2).k = "int" /\ Field(arg(3))
                         THEN /\ Is(e, N, N[d]) /\ N[d].k = "fe"
                              /\ T[N[d].m].p = arg(3).v /\ N[d].v = BMod(arg(2).v, arg(3).v)
                         ELSE Raised(e)
       [] e.op = "frand" -> IF n = 1 /\ Field(arg(2))
                            THEN /\ Is(e, N, N[d]) /\ N[d].k = "fe"
                                 /\ T[N[d].m].p = arg(2).v /\ IsResidue(N[d].v, arg(2).v)
                            ELSE Raised(e)
       [] e.op = "named" -> LET rows == IF sole("tx") THEN {i \in DOMAIN NamedCurves : StrCodes(NamedCurves[i][1]) = arg(2).b} ELSE {}
                            IN IF rows = {} THEN Raised(e)
                               ELSE Is(e, N, N[d]) /\ N[d].k = "cv" /\ T[N[d].c] = NamedRow(CHOOSE i \in rows : TRUE)
       [] e.op = "curve" ->      \* form p a b n h gx gy bits
            LET ints == n = 9 /\ \A i \in 3..10 : arg(i).k = "int"
                p == arg(3).v  ord == arg(6).v  bits == arg(10).v
                usable == /\ Field(arg(3)) /\ BBit(p, 0) = 1 /\ Field(arg(6))
                          /\ BSgn(bits) >= 0 /\ BBitLen(bits) <= 11 /\ BToInt(bits) <= 1024 /\ BToInt(bits) >= BBitLen(p)
                c == [t |-> e.a[2][2], p |-> p, a |-> BMod(arg(4).v, p), b |-> BMod(arg(5).v, p), n |-> ord, h |-> arg(7).v,
                      gx |-> arg(8).v, gy |-> arg(9).v, bits |-> BToInt(bits)]
                neg == \E i \in 4..9 : BSgn(arg(i).v) < 0
            IN IF ~ints THEN Raised(e)
               ELSE IF ~usable THEN Raised(e)
               ELSE IF Satisfies(c, BMod(c.gx, p), BMod(c.gy, p))
               THEN \/ Is(e, N, N[d]) /\ N[d].k = "cv" /\ T[N[d].c] = c
                    \/ neg /\ Raised(e)
               ELSE Raised(e)
       [] e.op = "point" ->
            IF n < 1 \/ arg(2).k # "cv" THEN Raised(e)
            ELSE LET kc == arg(2).c  c == T[kc]
                     dec(b) == IF Len(b) > 0 /\ Decodable(c, b)
                               THEN Is(e, N, N[d]) /\ N[d].k = "pt" /\ N[d].c = kc /\ DecodesTo(c, b, N[d].P)
                               ELSE Raised(e)
                 IN CASE n = 1 -> Is(e, N, PtV(kc, Neutral(c)))
                      [] n = 2 /\ arg(3).k = "by" -> dec(arg(3).b)
                      [] n = 2 /\ arg(3).k = "tx" -> dec(IF IsHexText(arg(3).b) THEN HexTextBytes(arg(3).b) ELSE << >>)
                      [] OTHER -> Raised(e)
       [] e.op = "affpt" ->      \* curve and a tuple of coordinates
            IF n # 3 \/ arg(2).k # "cv" THEN Raised(e)
            ELSE LET kc == arg(2).c  c == T[kc]
                     X == arg(3)  Y == arg(4)
                     typed == \/ X.k = "int" /\ Y.k = "int"
                              \/ X.k = "fe" /\ Y.k = "fe" /\ T[X.m].p = c.p /\ T[Y.m].p = c.p
                     x == BMod(X.v, c.p)  y == BMod(Y.v, c.p)
                 IN IF typed /\ Satisfies(c, x, y) THEN Is(e, N, PtV(kc, Aff(x, y))) ELSE Raised(e)
       [] e.op = "prand" -> IF ~sole("cv") THEN Raised(e)
                            ELSE LET kc == arg(2).c  c == T[kc]
                                 IN Is(e, N, N[d]) /\ N[d].k = "pt" /\ N[d].c = kc /\ OnCurve(c, N[d].P)
                                    /\ IsNeutral(c, SMul(c, c.n, N[d].P))
       [] e.op = "gen" -> IF ~sole("cv") THEN Raised(e) ELSE Is(e, N, PtV(arg(2).c, Gen(T[arg(2).c])))
       [] e.op = "scheme" -> IF n = 2 /\ arg(2).k = "cv" /\ arg(3).k = "hm"
                             THEN Is(e, N, [k |-> "sc", c |-> arg(2).c, hsz |-> arg(3).sz]) ELSE Raised(e)

\* the drivers' hash modules fail on messages which start with EE EB .. EE EE
HashFails(m) == Len(m) >= 2 /\ m[1] = 238 /\ m[2] \in 235..238
Msg(v) == v.k \in {"by", "tx"}
CryptOp(e, O, N, T) ==
  LET d == e.a[1]
      arg(i) == V(O, e.a[i])
      n == Len(e.a) - 1
  IN CASE e.op = "sign" ->
            LET sc == arg(2)  key == arg(3)  m == arg(4)
                ok == /\ n = 3 /\ sc.k = "sc" /\ Msg(m) /\ m.b # << >> /\ ~HashFails(m.b)
                      /\ key.k \in {"fe", "int"} /\ (key.k = "fe" => T[key.m].p = T[sc.c].n)
            IN IF ~ok THEN Raised(e)
               ELSE LET c == T[sc.c] IN
                    /\ Is(e, N, N[d]) /\ N[d].k = "sg" /\ N[d].c = sc.c /\ N[d].hsz = sc.hsz
                    /\ Verifies(c, SMul(c, BMod(key.v, c.n), Gen(c)), DigestInt(Digest(m.b, sc.hsz), c.n), N[d].r, N[d].s)
       [] e.op = "import" ->
            LET sc == arg(2)  v == arg(3)
                b == CASE v.k = "by" -> v.b [] v.k = "tx" /\ IsHexText(v.b) -> HexTextBytes(v.b) [] OTHER -> << >>
            IN IF n = 2 /\ sc.k = "sc" /\ Msg(v) /\ b # << >> /\ SigDecodable(T[sc.c].n, b)
               THEN Is(e, N, [k |-> "sg", c |-> sc.c, hsz |-> sc.hsz, r |-> SigDecR(T[sc.c].n, b), s |-> SigDecS(T[sc.c].n, b)])
               ELSE Raised(e)
       [] e.op = "pair" ->
            IF n = 2 /\ arg(2).k = "pt" /\ arg(3).k = "pt" /\ SameCurve(T[arg(2).c], T[arg(3).c])
            THEN /\ Is(e, N, N[d]) /\ N[d].k = "ct" /\ N[d].C = arg(2).P /\ N[d].D = arg(3).P
                 /\ {N[d].c, N[d].c2} \subseteq {arg(2).c, arg(3).c}
            ELSE Raised(e)
       [] e.op = "part" -> IF arg(2).k = "ct" /\ e.a[3] \in {"C", "D"}
                           THEN Is(e, N, IF e.a[3] = "C" THEN PtV(arg(2).c, arg(2).C) ELSE PtV(arg(2).c2, arg(2).D))
                           ELSE Raised(e)
       [] e.op = "encrypt" ->     \* the fourth operand, if given, is the secret key
            LET pk == arg(2)  m == arg(3) IN
            IF ~(n >= 2 /\ pk.k = "pt" /\ m.k = "pt" /\ SameCurve(T[pk.c], T[m.c])) THEN Raised(e)
            ELSE LET c == T[pk.c]  v == N[d] IN
                 /\ Is(e, N, v) /\ v.k = "ct" /\ {v.c, v.c2} \subseteq {pk.c, m.c}
                 /\ OnCurve(c, v.C) /\ OnCurve(c, v.D) /\ ~IsNeutral(c, v.C) /\ IsNeutral(c, SMul(c, c.n, v.C))
                 /\ (n = 3 /\ pk.P = SMul(c, BMod(arg(4).v, c.n), Gen(c))
                       => v.D = Add(c, m.P, SMul(c, BMod(arg(4).v, c.n), v.C)))
       [] e.op = "decrypt" ->
            LET ct == arg(2)  key == arg(3) IN
            IF ~(n = 2 /\ ct.k = "ct" /\ key.k \in {"fe", "int"} /\ (key.k = "fe" => T[key.m].p = T[ct.c].n)) THEN Raised(e)
            ELSE LET c == T[ct.c] R == ElgamalDec(c, BMod(key.v, c.n), ct.C, ct.D)
                 IN e.r[1] = "ok" /\ e.a[1] \in DOMAIN N /\ N[d] \in {PtV(ct.c, R), PtV(ct.c2, R)}
VerifyOp(e, O, T) ==
  LET g == V(O, e.a[1])  q == V(O, e.a[2])  m == V(O, e.a[3])
      c == T[g.c]
  IN IF ~(Len(e.a) = 3 /\ g.k = "sg" /\ q.k = "pt" /\ Msg(m)) THEN Raised(e)
     ELSE IF HashFails(m.b) THEN Raised(e)
     ELSE IF m.b = << >> \/ ~SameCurve(c, T[q.c]) THEN Answer(e, FALSE) \/ Raised(e)
     ELSE Answer(e, Verifies(c, q.P, DigestInt(Digest(m.b, g.hsz), c.n), g.r, g.s))

Queries == {"eq", "ne", "lt", "le", "gt", "ge", "int", "str", "strfull", "compressed", "uncompressed", "asbytes", "affine", "attr", "check",
            "setup", "names", "verify", "setattr", "bad", "isneutral", "bit", "cmp", "order", "rep", "gc", "use"}
BWrites(O, e) == CASE e.op = "reset" -> DOMAIN O  [] e.op \in Queries -> {}  [] OTHER -> {e.a[1]}

BPost(e, O, N, T) ==
  CASE e.op \in {"add", "sub", "mul"} -> BinOp(e, O, N, T)
    [] e.op = "pow" -> PowOp(e, O, N, T)
    [] e.op \in {"neg", "inv", "sqrt", "repr"} -> UnOp(e, O, N, T)
    [] e.op \in {"fe", "frand", "named", "curve", "point", "affpt", "prand", "gen", "scheme"} -> NewOp(e, O, N, T)
    [] e.op \in {"sign", "import", "pair", "part", "encrypt", "decrypt"} -> CryptOp(e, O, N, T)
    [] e.op = "verify" -> VerifyOp(e, O, T)
    [] e.op = "del" -> e.a[1] \notin DOMAIN N          \* the name is forgotten; nothing else changes
    [] e.op = "reset" -> DOMAIN N = {}                 \* every name is
    [] e.op = "gc" -> TRUE
    \* a call repeated with its results dropped: no reference and no block stays behind
    [] e.op = "rep" -> e.r[1] = "0" /\ e.r[2] = "0"
    [] e.op \in Queries -> QueryOp(e, O, T)

BStep == /\ l <= Len(Log)
         /\ LET e == Log[l]
                T == Consts
                N == NewObj(T, e)
            IN /\ Changed(e) \subseteq BWrites(obj, e)
               /\ BPost(e, obj, N, T) = TRUE
               /\ obj' = N /\ pts' = pts /\ l' = l + 1
BSpec == Init /\ [][BStep]_vars
=============================================================================
