----------------------------- MODULE GoBinding ------------------------------
(***************************************************************************)
(* The Go package.  As Binding, with these differences: a method stores    *)
(* its result in its receiver, which may be one of its operands or an      *)
(* object of another field or curve; calls are reported to fail by a nil   *)
(* result (or an error value), and by a panic only where the signature     *)
(* leaves no other way; no argument is changed (e.u lists those which      *)
(* were); messages are hashed by the caller's hash, so that the empty      *)
(* message is a message like any other.                                    *)
(***************************************************************************)
EXTENDS Binding

\* operations on elements of different fields, and fields of order 0, may panic
MayPanic == {"add", "sub", "mul", "cmp", "fe", "frand"}
Panicked(e) == e.r = <<"exc", "panic">> /\ e.op \in MayPanic
AsNil(e) == IF Panicked(e) THEN [e EXCEPT !.r = <<"exc", "nil">>] ELSE e
\* a nil result, where there is nothing to return
NilFor(e) == e.r = <<"exc", "nil">> /\ Changed(e) = {}

GoDigest(m, n) == IF m = << >> THEN [i \in 1..n |-> 0] ELSE Digest(m, n)
CoefKeys(t) == CASE t = "ws" -> <<"ws_a", "ws_b">> [] t = "ed" -> <<"ed_c", "ed_d">> [] t = "mo" -> <<"mo_B", "mo_A">> [] t = "te" -> <<"te_a", "te_d">>
GoAttr(e, c) ==
  LET is(v) == e.r[1] = "ok" /\ Len(e.r) = 2 /\ RInt(e, 2) = v
      nm == e.a[2]
  IN CASE nm = "p" -> is(c.p) [] nm = "n" -> is(c.n) [] nm = "h" -> is(c.h) [] nm = "gx" -> is(c.gx) [] nm = "gy" -> is(c.gy)
       [] nm = "bits" -> is(BFromInt(c.bits))
       [] nm = CoefKeys(c.t)[1] -> is(c.a)
       [] nm = CoefKeys(c.t)[2] -> is(c.b)
       [] OTHER -> NilFor(e)

GPost(e, O, N, T) ==
  CASE e.op = "attr" -> GoAttr(e, T[V(O, e.a[1]).c])
    [] e.op = "type" -> e.r = <<"ok", T[V(O, e.a[1]).c].t>>
    [] e.op = "set" -> LET a == V(O, e.a[2]) IN Is(e, N, a)
    [] e.op = "cmp" ->
         LET a == V(O, e.a[1])  b == V(O, e.a[2]) IN
         IF a.k = "fe" /\ T[a.m].p # T[b.m].p THEN Changed(e) = {} /\ (Panicked(e) \/ (e.r[1] = "ok" /\ RInt(e, 2) # B0))
         ELSE /\ e.r[1] = "ok"
              /\ (RInt(e, 2) = B0 <=> Same(T, a, b))
              /\ a.k = "fe" => BSgn(RInt(e, 2)) = BCmp(a.v, b.v)
    [] e.op = "bit" ->
         LET a == V(O, e.a[1])  i == V(O, e.a[2]).v
         IN e.r = <<"ok", IF BSgn(i) >= 0 /\ BBitLen(i) <= 12 /\ BBit(a.v, BToInt(i)) = 1 THEN "1" ELSE "0">>
    [] e.op = "curve" /\ (\E i \in 4..9 : BSgn(V(O, e.a[i]).v) < 0) -> NilFor(e)     \* parameters are unsigned
    [] e.op = "check" /\ (\E i \in 2..3 : BSgn(V(O, e.a[i]).v) < 0) -> Answer(e, FALSE)
    [] e.op = "sign" ->
         LET d == e.a[1]  sc == V(O, e.a[2])  key == V(O, e.a[3])  m == V(O, e.a[4])  c == T[sc.c]
         IN /\ Is(e, N, N[d]) /\ N[d].k = "sg" /\ N[d].c = sc.c /\ N[d].hsz = sc.hsz
            /\ Verifies(c, SMul(c, BMod(key.v, c.n), Gen(c)), DigestInt(GoDigest(m.b, sc.hsz), c.n), N[d].r, N[d].s)
    [] e.op = "verify" ->
         LET g == V(O, e.a[1])  q == V(O, e.a[2])  m == V(O, e.a[3])  c == T[g.c]
         IN IF ~SameCurve(c, T[q.c]) THEN Answer(e, FALSE)
            ELSE Answer(e, Verifies(c, q.P, DigestInt(GoDigest(m.b, g.hsz), c.n), g.r, g.s))
    [] OTHER -> BPost(AsNil(e), O, N, T)

GQueries == Queries \cup {"type"}
GWrites(O, e) == IF e.op = "type" THEN {} ELSE BWrites(O, e)
GStep == /\ l <= Len(Log)
         /\ LET e == Log[l]
                T == Consts
                N == NewObj(T, e)
            IN /\ e.u = << >>
               /\ Changed(e) \subseteq GWrites(obj, e)
               /\ GPost(e, obj, N, T) = TRUE
               /\ obj' = N /\ pts' = pts /\ l' = l + 1
GSpec == Init /\ [][GStep]_vars
=============================================================================
