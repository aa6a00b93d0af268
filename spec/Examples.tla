------------------------------ MODULE Examples ------------------------------
(***************************************************************************)
(* The command-line programs of examples/.  The state is a set of files    *)
(* (name -> octets); a step puts a file there or runs a program, which     *)
(* reads a key file and an input and either fails (exit status 1, nothing  *)
(* on its standard output) or succeeds (exit status 0 and an output which  *)
(* is written to another file).  What the output has to be is a function   *)
(* of the octets read, down to the formats (armour, base64, DER), the      *)
(* cipher and the groups; where the programs draw random values (keys,     *)
(* nonces) the output is related to its inputs, and the random values      *)
(* must not occur twice.                                                   *)
(*                                                                         *)
(* Files are valid, invalid or neither: "valid" files must be accepted,    *)
(* "bad" ones refused; the formats have lenient corners (stray characters  *)
(* in base64, long forms in DER) where programs may refuse what they may   *)
(* as well understand ("lax"), and definitions of things which are no      *)
(* curves, or encodings the standard decoder may know and this module does *)
(* not, where only an orderly end is demanded ("any").  Input of the kinds *)
(* listed in known-findings.txt ("found") should be refused; a listed      *)
(* finding is not reported again, and is shown by a probe of its own.      *)
(***************************************************************************)
EXTENDS Armour, Ciphers, Schemes, Named, Json, TLC, TLCExt, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES l,       \* next event
          fs,      \* files
          seen     \* random values drawn so far

vars == <<l, fs, seen>>

FormOf(i) == CASE i = 2 -> "ws" [] i = 3 -> "ed" [] i = 4 -> "mo" [] i = 5 -> "te" [] OTHER -> "none"
FormNr(t) == CASE t = "ws" -> 2 [] t = "ed" -> 3 [] t = "mo" -> 4 [] t = "te" -> 5

\* values which define a curve the library can work on
CurveVerdict(c) ==
  IF \/ BBitLen(c.p) > 1024 \/ BBitLen(c.n) > 1024
     \/ BLe(c.p, <<2>>) \/ ~BIsPrime(c.p)
     \/ BLe(c.n, B1) \/ ~BIsPrime(c.n)
     \/ c.bits # BBitLen(c.p)
     \/ c.t = "mo" /\ c.a = B0
  THEN FOUND("params")
  ELSE IF c.t = "none" \/ ~Satisfies(c, c.gx, c.gy) THEN BAD
  ELSE IF ~NonSingular(c) \/ ~IsNeutral(c, SMul(c, c.n, Gen(c))) THEN FOUND("points")
  ELSE IF c.h = B0 \/ ~BLt(c.gx, c.p) \/ ~BLt(c.gy, c.p) THEN ANY
  ELSE OK(c)
\* where the programs go on with what they have refused
Decoded(v) == IF v.k \in {"bad", "any"} THEN FOUND("der") ELSE v
Instead(v, id) == IF v.k = "bad" THEN FOUND(id) ELSE v

CurveOf(o) ==
  Then(Decoded(DerSeq(o, 1, <<OCT, ENUM, SEQ, OCT, OCT, SEQ, INT>>, << >>)), LAMBDA f :
  Then(Decoded(DerSeq(f[3], 1, <<OCT, OCT>>, << >>)), LAMBDA par :
  Then(Decoded(DerSeq(f[6], 1, <<OCT, OCT>>, << >>)), LAMBDA g :
    LET bits == IntOf(f[7])
        type == IntOf(f[2])
        u(x) == BFromBytes(x)
        p == u(f[1])
        m(x) == IF BLe(p, B1) THEN u(x) ELSE BMod(u(x), p)
        w == Worst(<<bits, type, Unsigned(f[1]), Unsigned(f[4]), Unsigned(f[5]), Unsigned(par[1]), Unsigned(par[2]), Unsigned(g[1]), Unsigned(g[2])>>, << >>)
    IN IF w.k \in {"bad", "any", "found"} THEN w
       ELSE Then([w EXCEPT !.v = [t |-> FormOf(type.v), p |-> p, a |-> m(par[1]), b |-> m(par[2]), n |-> u(f[4]), h |-> u(f[5]),
                                  gx |-> u(g[1]), gy |-> u(g[2]), bits |-> bits.v]],
                 CurveVerdict))))

\* the point an octet string stands for (C08)
SqrtOf(a, p) == MSqrt(a, p)
XOf(c, s) == BFromBytes(SubSeq(s, 2, 1 + ByteLen(c)))
PointOf(c, s) ==
  IF ~Decodable(c, s) THEN BAD
  ELSE IF AllZero(s) THEN OK(Neutral(c))
  ELSE IF s[1] = 4 THEN OK(Aff(XOf(c, s), BFromBytes(SubSeq(s, 2 + ByteLen(c), Len(s)))))
  ELSE LET x == XOf(c, s)
           r == SqrtOf(YSquare(c, x), c.p)
           y == IF Parity(r) = s[1] - 2 THEN r ELSE MNeg(r, c.p)
           P == Aff(x, y)
       IN IF DecodesTo(c, s, P) THEN OK(P) ELSE BAD

\* ---- the files ------------------------------------------------------------------------
KeyPair(F(_, _), o, G(_)) == Then(Decoded(Outer(o, <<OCT, SEQ>>)), LAMBDA f :
                              IF f[1] = << >> THEN FOUND("der")
                              ELSE Then(G(CurveOf(f[2])), LAMBDA c : F(c, f[1])))
PrivOf(s) == Then(Armoured(s, "ECDH PRIVATE KEY"), LAMBDA o :
               KeyPair(LAMBDA c, x : OK([c |-> c, d |-> BFromBytes(x)]), o, LAMBDA v : v))
PubOf(s) == Then(Armoured(s, "ECDH PUBLIC KEY"), LAMBDA o :
              KeyPair(LAMBDA c, x : Then(Instead(PointOf(c, x), "points"), LAMBDA P :
                 \* (an all-zero key stands for the neutral element, with which nothing can be done)
                 IF P.o \/ AllZero(x) THEN ANY ELSE OK([c |-> c, Q |-> P])), o, LAMBDA v : Instead(v, "points")))
MsgOf(s) == Then(Armoured(s, "ECDHE_XSALSA20 ENCRYPTED MESSAGE"), LAMBDA o :
              Then(Decoded(Outer(o, <<OCT, OCT, OCT>>)), LAMBDA f :
                IF f[1] = << >> \/ f[2] = << >> \/ f[3] = << >> THEN FOUND("der")
                ELSE IF Len(f[2]) # 24 THEN FOUND("message") ELSE OK(f)))
CtOf(s) == Then(Armoured(s, "ECELGAMAL ENCRYPTED MESSAGE"), LAMBDA o :
             Then(Decoded(Outer(o, <<OCT, OCT, SEQ>>)), LAMBDA f :
               Then(IF f[1] = << >> \/ f[2] = << >> THEN FOUND("der") ELSE Instead(CurveOf(f[3]), "points"), LAMBDA c :
                 Then(Instead(PointOf(c, f[1]), "points"), LAMBDA C :
                   Then(Instead(PointOf(c, f[2]), "points"), LAMBDA D :
                   OK([c |-> c, C |-> C, D |-> D]))))))
CtIn(s) == Then(CtOf(s), LAMBDA t : IF IsNeutral(t.c, t.C) \/ IsNeutral(t.c, t.D) THEN FOUND("points") ELSE OK(t))
SignedOf(s) ==
  LET m == Block(s, "ECDSA SIGNED MESSAGE", 1)
      g == IF m.ok THEN Block(s, "ECDSA SIGNATURE", m.next) ELSE m
      \* blocks in any surroundings
      part(w) == LET b == BeginTag(w)  e == EndTag(w)  i == Find(s, b, 1)
                     j == IF i = 0 THEN 0 ELSE Find(s, e, i + Len(b))
                     body == SubSeq(s, i + Len(b), j - 1)
                     v == B64Octets(body)
                 IN IF i = 0 \/ j = 0 \/ 45 \in Range(body) THEN (IF Find(s, SubSeq(b, 6, Len(b) - 5), 1) = 0 \/ Find(s, SubSeq(e, 6, Len(e) - 5), 1) = 0 THEN BAD ELSE ANY)
                    ELSE IF v = << >> THEN BAD ELSE LAX(v)
      lm == part("ECDSA SIGNED MESSAGE")
      lg == part("ECDSA SIGNATURE")
      dashes == Cardinality({i \in 1..Len(s) : s[i] = 45})
  IN IF g.ok /\ g.next = Len(s) + 1 THEN OK(<<m.v, g.v>>)
     ELSE IF 0 \in Range(s) THEN ANY
     ELSE LET w == Worst(<<lm, lg>>, <<lm.v, lg.v>>) IN
          IF w.k = "lax" /\ dashes # 40 THEN ANY ELSE w

\* ---- what the programs write --------------------------------------------------------------
Exactly(s, w) == LET b == Block(s, w, 1) IN IF b.ok /\ b.next = Len(s) + 1 THEN b.v ELSE << >>
\* (bits is redundant: the bit length of p)
SameCurve(c1, c2) == [c1 EXCEPT !.bits = 0] = [c2 EXCEPT !.bits = 0]

StreamKey(c, S) == Sha256(Encode(c, S, TRUE))

\* ---- runs -----------------------------------------------------------------------------------
File(n) == IF n \in DOMAIN fs THEN OK(fs[n]) ELSE BAD
\* the findings which this run of the checker does not report
Listed(id) == ("FINDING_" \o id) \in DOMAIN IOEnv
Failed(e) == e.rc \in 1..125 /\ e.o = ""
Out(e) == HexBytes(e.o)
\* what holds of a run whose inputs have verdict v: F is demanded of the output
Judge(e, v, F(_)) == CASE v.k = "ok" -> e.rc = 0 /\ F(v.v)
                       [] v.k = "lax" -> Failed(e) \/ (e.rc = 0 /\ F(v.v))
                       [] v.k = "bad" -> Failed(e)
                       [] v.k = "any" -> Failed(e) \/ e.rc = 0
                       [] v.k = "found" -> Failed(e) \/ Listed(v.v)
Both(a, b) == Worst(<<a, b>>, <<a.v, b.v>>)
Known(e, c, Q) == e.d # "" /\ SMul(c, BMod(BFromHex(e.d), c.n), Gen(c)) = Q

\* random values a successful run has drawn (<<kind, value>>), of at least 64 bits
Drawn(e) ==
  IF e.rc # 0 THEN {}
  ELSE CASE e.p = "ecdh_gen" -> {<<"key", PrivOf(Out(e)).v.d>>}
         [] e.p = "ecdh_enc" -> LET m == MsgOf(Out(e)) IN
              IF m.k # "ok" THEN {} ELSE {<<"nonce", m.v[2]>>} \cup (IF Len(m.v[1]) > 12 THEN {<<"point", m.v[1]>>} ELSE {})
         [] e.p = "ecelgamal_enc" -> LET m == CtOf(Out(e)) IN
              IF m.k # "ok" \/ BBitLen(m.v.c.n) < 64 THEN {} ELSE {<<"point", Encode(m.v.c, m.v.C, TRUE)>>}
         [] OTHER -> {}

Names == {StrCodes(NamedCurves[i][1]) : i \in DOMAIN NamedCurves}
RowOf(n) == NamedRow(CHOOSE i \in DOMAIN NamedCurves : StrCodes(NamedCurves[i][1]) = n)
Lines(s) == {StrCodes("    ") \o n : n \in Names}

\* e.p program, e.key key file, e.f input ("" none), e.name curve name, e.d the private key of the
\* recipient, if known; e.rc exit status (negative: killed), e.o standard output
Run(e) ==
  LET key == File(e.key)
      in == IF e.f = "" THEN OK(<< >>) ELSE File(e.f)
      text == Then(in, LAMBDA s : IF s = << >> THEN FOUND("empty") ELSE OK(s))
  IN CASE e.p = "badopt" -> Failed(e)
    [] e.p = "help" -> e.rc = 0 /\ e.o # ""
    [] e.p = "ecdh_gen" ->
         LET n == IF e.name = "-" THEN StrCodes("secp256k1") ELSE HexBytes(e.name) IN
         IF n \notin Names THEN Failed(e)
         ELSE /\ e.rc = 0
              /\ LET k == PrivOf(Out(e)) IN k.k = "ok" /\ k.v.c = RowOf(n) /\ BLt(k.v.d, k.v.c.n)
    [] e.p = "list" ->
         /\ e.rc = 0
         /\ LET out == Out(e)
                head == StrCodes("Supported Elliptic Curves:") \o <<10>>
                rows == [i \in DOMAIN NamedCurves |-> StrCodes("    ") \o StrCodes(NamedCurves[i][1]) \o <<10>>]
            IN /\ HasAt(out, head, 1)
               /\ Len(out) = Len(head) + FoldSeq(LAMBDA r, a : a + Len(r), 0, rows)
               /\ \A i \in DOMAIN rows : Find(out, rows[i], 1) > 0
    [] e.p = "ecdh_pub" ->
         Judge(e, Then(in, PrivOf), LAMBDA k :
           LET q == SMul(k.c, BMod(k.d, k.c.n), Gen(k.c))
               r == PubOf(Out(e))
           IN IF IsNeutral(k.c, q) THEN TRUE ELSE r.k = "ok" /\ r.v = [c |-> k.c, Q |-> q])
    [] e.p = "ecdh_enc" ->
         Judge(e, Both(Then(key, PubOf), text), LAMBDA v :
           LET k == v[1]  m == v[2]
               r == MsgOf(Out(e))
               P == PointOf(k.c, r.v[1])
           IN /\ r.k = "ok" /\ P.k = "ok"
              /\ Len(r.v[3]) = Len(m)
              /\ IsNeutral(k.c, SMul(k.c, k.c.n, P.v))
              /\ Known(e, k.c, k.Q) =>
                   XSalsa20(StreamKey(k.c, SMul(k.c, BMod(BFromHex(e.d), k.c.n), P.v)), r.v[2], r.v[3]) = m)
    [] e.p = "ecdh_dec" ->
         Judge(e, Then(Then(key, PrivOf), LAMBDA k :
                    Then(Then(in, MsgOf), LAMBDA f :
                      Then(Instead(PointOf(k.c, f[1]), "message"), LAMBDA P : OK([k |-> k, P |-> P, nonce |-> f[2], text |-> f[3]])))), LAMBDA m :
           Out(e) = XSalsa20(StreamKey(m.k.c, SMul(m.k.c, BMod(m.k.d, m.k.c.n), m.P)), m.nonce, m.text))
    [] e.p = "ecdsa_sign" ->
         \* the base64 text of up to four octets does not fit where it is written
         \/ e.rc = 200 /\ Listed("short") /\ LET k == Then(key, PrivOf) IN
              (text.k = "ok" /\ Len(text.v) <= 4) \/ k.k = "any" \/ (k.k \in {"ok", "lax"} /\ BBitLen(k.v.c.n) <= 16)
         \/ Judge(e, Both(Then(key, PrivOf), text), LAMBDA v :
           LET k == v[1]  m == v[2]
               r == SignedOf(Out(e))
               n == k.c.n
           IN /\ r.k = "ok" /\ r.v[1] = m
              /\ SigDecodable(n, r.v[2])
              /\ Verifies(k.c, SMul(k.c, BMod(k.d, n), Gen(k.c)), DigestInt(Sha512(m), n), SigDecR(n, r.v[2]), SigDecS(n, r.v[2])))
    [] e.p = "ecdsa_verify" ->
         LET k == Then(key, PubOf)
             s == Then(in, SignedOf)
             v == Both(k, s)
         \* (the search for a missing block goes beyond the end of the text)
         IN IF e.rc = 200 /\ Listed("overread") THEN s.k \notin {"ok", "lax"}
            ELSE IF v.k \in {"bad", "any", "found"} THEN Judge(e, v, LAMBDA x : TRUE)
            ELSE LET c == k.v.c
                     good == /\ SigDecodable(c.n, s.v[2])
                             /\ Verifies(c, k.v.Q, DigestInt(Sha512(s.v[1]), c.n), SigDecR(c.n, s.v[2]), SigDecS(c.n, s.v[2]))
                 IN Judge(e, IF good THEN v ELSE BAD, LAMBDA x : Out(e) = s.v[1])
    [] e.p = "ecelgamal_enc" ->
         LET k == Then(key, PubOf)
             m == Then(in, PubOf)
             v == Both(k, m)
         IN Judge(e, Then(v, LAMBDA x : IF SameCurve(x[1].c, x[2].c) THEN OK(x) ELSE BAD), LAMBDA x :
              LET r == CtOf(Out(e))
                  c == x[1].c
              IN /\ r.k = "ok" /\ r.v.c = c
                 /\ IsNeutral(c, SMul(c, c.n, r.v.C))
                 /\ Known(e, c, x[1].Q) => ElgamalDec(c, BMod(BFromHex(e.d), c.n), r.v.C, r.v.D) = x[2].Q)
    [] e.p = "ecelgamal_dec" ->
         LET k == Then(key, PrivOf)
             m == Then(in, CtIn)
             v == Both(k, m)
         IN Judge(e, Then(v, LAMBDA x : IF SameCurve(x[1].c, x[2].c) THEN OK(x) ELSE BAD), LAMBDA x :
              LET c == x[1].c
                  M == ElgamalDec(c, BMod(x[1].d, c.n), x[2].C, x[2].D)
                  o == Exactly(Out(e), "ECDH PUBLIC KEY")
                  f == Outer(o, <<OCT, SEQ>>)
              IN f.k = "ok" /\ CurveOf(f.v[2]) = OK(c) /\ f.v[1] = Encode(c, M, TRUE))

Init == l = 1 /\ fs = [n \in {} |-> << >>] /\ seen = {}
Put(e) == /\ e.op = "put"
          /\ fs' = (e.f :> HexBytes(e.o)) @@ fs
          /\ UNCHANGED seen
Del(e) == /\ e.op = "reset"
          /\ fs' = [n \in {} |-> << >>]
          /\ UNCHANGED seen
Exec(e) == /\ e.op = "run"
           /\ Run(e) = TRUE
           /\ \E w \in {TLCEval(Drawn(e))} : w \cap seen = {} /\ seen' = seen \cup w
           /\ fs' = IF e.out = "" THEN fs ELSE (e.out :> Out(e)) @@ fs
Step == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET e == Log[l] IN Put(e) \/ Del(e) \/ Exec(e)
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
WellFormed == l \in 1..(Len(Log) + 1)
=============================================================================
