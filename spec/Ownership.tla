----------------------------- MODULE Ownership ------------------------------
(***************************************************************************)
(* Life of the objects behind a reference counted binding.                 *)
(*                                                                         *)
(* The heap maps an identity to what the object is, the objects it owns    *)
(* (own: counted references) and the objects its C structure points at     *)
(* (ptr: uncounted).  Names are the program's variables.  An object is     *)
(* released when neither a name nor an owner refers to it.  The design is  *)
(* safe iff nothing live points at a released object, and leak free iff    *)
(* nothing unreachable stays in the heap.                                  *)
(*                                                                         *)
(* The same module generates the histories of creation, derivation,        *)
(* rebinding, deletion and collection which are replayed into the module   *)
(* under a debugging allocator and an address sanitizer.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS NF, NC, NP, NS, NG, NE,   \* names of each kind
          NCV,                      \* curve values
          Borrow,                   \* TRUE: a sum may point at the second operand's curve object without owning it
          Gen,                      \* TRUE when generating histories
          Bound                     \* objects alive at a time (model checking)

HistLen == IF "HISTLEN" \in DOMAIN IOEnv THEN atoi(IOEnv.HISTLEN) ELSE 60
VARIABLES heap, name, released, hist
vars == <<heap, name, released, hist>>

Nm(k, n) == {k \o ToString(i) : i \in 0..(n - 1)}
FN == Nm("f", NF)  CN == Nm("c", NC)  PN == Nm("p", NP)  SN == Nm("s", NS)  GN == Nm("g", NG)  EN == Nm("e", NE)
CV == 1..NCV
St(n) == "K" \o ToString(n)

\* ---- the heap
Owners(h, i) == {j \in DOMAIN h : i \in h[j].own}
RECURSIVE Collect(_, _)
Collect(h, nm) ==
  LET dead == {i \in DOMAIN h : Owners(h, i) = {} /\ i \notin {nm[x] : x \in DOMAIN nm}}
  IN IF dead = {} THEN h ELSE Collect([i \in DOMAIN h \ dead |-> h[i]], nm)
Fresh == CHOOSE i \in 1..(Cardinality(DOMAIN heap) + 1) : i \notin DOMAIN heap
Fresh2 == CHOOSE i \in 1..(Cardinality(DOMAIN heap) + 2) : i \notin DOMAIN heap /\ i # Fresh
With(h, i, r) == [j \in DOMAIN h \cup {i} |-> IF j = i THEN r ELSE h[j]]

\* histories are generated by choosing each parameter at random; the model is checked for all
Pick(S) == IF Gen THEN IF S = {} THEN {} ELSE {RandomElement(S)} ELSE S
Do(cmd) == hist' = Append(hist, cmd)
\* bind a name: the new object exists before the old one loses its name
Settle(h, nm) == LET g == Collect(h, nm) IN heap' = g /\ name' = nm /\ released' = released \cup (DOMAIN h \ DOMAIN g)
Bind(x, r) == /\ Cardinality(DOMAIN heap) < Bound
              /\ Settle(With(heap, Fresh, r), With(name, x, Fresh))
\* as Bind, the object owning a private copy of the curve value
BindCopy(x, k, cv) ==
  /\ Cardinality(DOMAIN heap) + 1 < Bound
  /\ Settle(With(With(heap, Fresh, [k |-> "cv", cv |-> cv, own |-> {}, ptr |-> {}]), Fresh2, [k |-> k, cv |-> cv, own |-> {Fresh}, ptr |-> {Fresh}]), With(name, x, Fresh2))
Obj(x) == heap[name[x]]
Curve(x) == CHOOSE i \in Obj(x).own : heap[i].k = "cv"
L(S) == S \cap DOMAIN name
Leaf(k, cv) == [k |-> k, cv |-> cv, own |-> {}, ptr |-> {}]
On(k, c) == [k |-> k, cv |-> heap[c].cv, own |-> {c}, ptr |-> {c}]

Init == heap = << >> /\ name = << >> /\ released = {} /\ hist = << >>
More == Len(hist) < HistLen

NewF == \E x \in Pick(FN), cv \in Pick(CV) : Bind(x, Leaf("fe", cv)) /\ Do(<<"fe", x, St(cv)>>)
FOp  == \E x \in Pick(FN) : \E a \in Pick(L(FN)), b \in Pick(L(FN)), op \in Pick({"add", "sub", "mul", "neg", "inv"}) :
           Obj(a).cv = Obj(b).cv /\ Bind(x, Leaf("fe", Obj(a).cv)) /\ Do(<<op, x, a, b>>)
NewC == \E x \in Pick(CN), cv \in Pick(CV), how \in Pick({"named", "curve"}) : Bind(x, Leaf("cv", cv)) /\ Do(<<how, x, St(cv)>>)
ReC  == \E x \in Pick(CN) : \E a \in Pick(L(CN)) : Bind(x, Leaf("cv", Obj(a).cv)) /\ Do(<<"repr", x, a>>)
NewP == \E x \in Pick(PN) : \E c \in Pick(L(CN)), how \in Pick({"point", "affpt", "decode", "text", "gen", "prand"}) :
           Bind(x, On("pt", name[c])) /\ Do(<<how, x, c, St(Obj(c).cv)>>)
PBin == \E x \in Pick(PN) : \E a \in Pick(L(PN)), b \in Pick(L(PN)), op \in Pick({"add", "sub"}) :
           /\ Obj(a).cv = Obj(b).cv
           /\ Bind(x, [k |-> "pt", cv |-> Obj(a).cv, own |-> {Curve(a)}, ptr |-> IF Borrow THEN {Curve(b)} ELSE {Curve(a)}])
           /\ Do(<<op, x, a, b>>)
PUn  == \E x \in Pick(PN) : \E a \in Pick(L(PN)), op \in Pick({"neg", "mulz"}) : Bind(x, On("pt", Curve(a))) /\ Do(<<op, x, a>>)
PMul == \E x \in Pick(PN) : \E a \in Pick(L(PN)), f \in Pick(L(FN)), op \in Pick({"mul", "mulr"}) : Bind(x, On("pt", Curve(a))) /\ Do(<<op, x, a, f>>)
PRe  == \E x \in Pick(PN) : \E a \in Pick(L(PN)) : BindCopy(x, "pt", Obj(a).cv) /\ Do(<<"repr", x, a>>)
NewS == \E x \in Pick(SN) : \E c \in Pick(L(CN)) : Bind(x, On("sc", name[c])) /\ Do(<<"scheme", x, c>>)
Sig(s) == [k |-> "sg", cv |-> Obj(s).cv, own |-> {name[s]}, ptr |-> {name[s]} \cup Obj(s).ptr]
Sign == \E x \in Pick(GN) : \E s \in Pick(L(SN)), f \in Pick(L(FN)) : Obj(s).cv = Obj(f).cv /\ Bind(x, Sig(s)) /\ Do(<<"sign", x, s, f>>)
SignI== \E x \in Pick(GN) : \E s \in Pick(L(SN)) : Bind(x, Sig(s)) /\ Do(<<"signi", x, s>>)
Imp  == \E x \in Pick(GN) : \E s \in Pick(L(SN)), how \in Pick({"import", "importt"}) : Bind(x, Sig(s)) /\ Do(<<how, x, s, St(Obj(s).cv)>>)
Enc  == \E x \in Pick(EN) : \E a \in Pick(L(PN)), b \in Pick(L(PN)), op \in Pick({"encrypt", "pair"}) : Obj(a).cv = Obj(b).cv /\ Bind(x, On("ct", Curve(a))) /\ Do(<<op, x, a, b>>)
ERe  == \E x \in Pick(EN) : \E a \in Pick(L(EN)) : BindCopy(x, "ct", Obj(a).cv) /\ Do(<<"repr", x, a>>)
Part == \E x \in Pick(PN) : \E a \in Pick(L(EN)), w \in Pick({"C", "D"}) : BindCopy(x, "pt", Obj(a).cv) /\ Do(<<"part", x, a, w>>)
Dec  == \E x \in Pick(PN) : \E a \in Pick(L(EN)), f \in Pick(L(FN)) : Obj(a).cv = Obj(f).cv /\ BindCopy(x, "pt", Obj(a).cv) /\ Do(<<"decrypt", x, a, f>>)
DecI == \E x \in Pick(PN) : \E a \in Pick(L(EN)) : BindCopy(x, "pt", Obj(a).cv) /\ Do(<<"decrypti", x, a>>)
Ask  == /\ \/ \E g \in Pick(L(GN)) : \E a \in Pick(L(PN)) : Do(<<"verify", g, a>>)
           \/ \E a \in Pick(L(PN)), op \in Pick({"affine", "compressed", "uncompressed", "str", "setup"}) : Do(<<op, a>>)
           \/ \E a \in Pick(L(PN)), b \in Pick(L(PN)), op \in Pick({"eq", "ne"}) : Do(<<op, a, b>>)
           \/ \E a \in Pick(L(CN)), b \in Pick(L(CN)), op \in Pick({"eq", "ne"}) : Do(<<op, a, b>>)
           \/ \E a \in Pick(L(EN) \cup L(GN)), op \in Pick({"str"}) : Do(<<op, a>>)
           \/ \E a \in Pick(L(GN)) : Do(<<"asbytes", a>>)
           \/ \E a \in Pick(L(CN)), w \in Pick({"p", "G", "bits", "ctype"}) : Do(<<"attr", a, w>>)
        /\ UNCHANGED <<heap, name, released>>
\* calls which are refused: nothing is bound
Bad  == /\ \/ \E a \in Pick(L(PN)), b \in Pick(L(PN)), op \in Pick({"add", "encrypt", "pair"}) : Obj(a).cv # Obj(b).cv /\ Do(<<op, "z", a, b>>)
           \/ \E a \in Pick(L(PN)) : \E f \in Pick(L(FN)) : Do(<<"add", "z", a, f>>)
           \/ \E s \in Pick(L(SN)) : \E f \in Pick(L(FN)) : Obj(s).cv # Obj(f).cv /\ Do(<<"sign", "z", s, f>>)
           \/ \E a \in Pick(L(EN)) : \E f \in Pick(L(FN)) : Obj(a).cv # Obj(f).cv /\ Do(<<"decrypt", "z", a, f>>)
           \/ \E c \in Pick(L(CN)), how \in Pick({"badpoint", "badtext", "badpair", "badscheme"}) : Do(<<how, "z", c, St(Obj(c).cv)>>)
           \/ \E s \in Pick(L(SN)), how \in Pick({"badsig", "badmsg"}) : Do(<<how, "z", s>>)
        /\ UNCHANGED <<heap, name, released>>
Del  == \E x \in Pick(DOMAIN name) : Settle(heap, [y \in DOMAIN name \ {x} |-> name[y]]) /\ Do(<<"del", x>>)
Gc   == Do(<<"gc">>) /\ UNCHANGED <<heap, name, released>>

Step == NewF \/ FOp \/ NewC \/ ReC \/ NewP \/ PBin \/ PUn \/ PMul \/ PRe \/ NewS \/ Sign \/ SignI \/ Imp \/ Enc \/ ERe
        \/ Part \/ Dec \/ DecI \/ Ask \/ Bad \/ Del \/ Del \/ Gc
Next == More /\ Step
Spec == Init /\ [][Next]_vars
Unbounded == Init /\ [][Step]_vars
Emit == More \/ PrintT(ToJson(hist))

\* ---- what is required of the design
Live == DOMAIN heap
NoDangling == \A i \in Live : heap[i].ptr \subseteq Live /\ heap[i].own \subseteq Live
NamesLive == \A x \in DOMAIN name : name[x] \in Live
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {heap[i].own : i \in S} IN IF T = S THEN S ELSE Reach(T)
NoLeak == Live = Reach({name[x] : x \in DOMAIN name})
View == <<heap, name>>
=============================================================================
