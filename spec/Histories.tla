----------------------------- MODULE Histories ------------------------------
(***************************************************************************)
(* Generator of legal call histories over all object kinds.                *)
(*                                                                         *)
(* The state records, for every handle, whether it is live, whether it     *)
(* holds a value and in which field / on which curve (object), which is    *)
(* exactly what the API's preconditions depend on.  Every behaviour is a   *)
(* legal history; destinations range over all live handles of the kind,    *)
(* so every aliasing pattern, every reuse of an object for another field   *)
(* or curve and every life-cycle order occurs.  TLC (-simulate) produces   *)
(* behaviours; lib/gen_hist.py fills in concrete curves and values and     *)
(* replays them into the code, whose recording EccTrace.tla then judges.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS NF, NC, NP, NS, NG, NE,    \* handles of each kind
          NCV,                       \* curves 1..NCV; curve i has base field i and scalar field NCV+i
          N                          \* length of a history

HistLen == IF "HISTLEN" \in DOMAIN IOEnv THEN atoi(IOEnv.HISTLEN) ELSE 120
FH == 0..(NF - 1)   CH == 0..(NC - 1)   PH == 0..(NP - 1)
SH == 0..(NS - 1)   GH == 0..(NG - 1)   EH == 0..(NE - 1)
CV == 1..NCV        FLD == 1..(2 * NCV)
Ord(cv) == NCV + cv

VARIABLES f,   \* f[i]: -1 dead, 0 live without value, k > 0 value of field k
          c,   \* c[i]: -1 dead, 0 undefined, k curve
          p,   \* p[i]: [st, cv, use, tab]: st -1/0/1, use = curve objects it may refer to
          s,   \* s[i]: [st, cv, use]
          g,   \* g[i]: [st, cv, sch, key]
          e,   \* e[i]: [st, cv, use]
          hist
vars == <<f, c, p, s, g, e, hist>>

St(n) == ToString(n)
F(i) == "f" \o St(i)   C(i) == "c" \o St(i)   P(i) == "p" \o St(i)
S(i) == "s" \o St(i)   G(i) == "g" \o St(i)   E(i) == "e" \o St(i)
Do(cmd) == hist' = Append(hist, cmd)

Dead == [st |-> -1, cv |-> 0, use |-> {}, tab |-> FALSE]
Init == /\ f = [i \in FH |-> -1]
        /\ c = [i \in CH |-> IF i = 0 THEN 1 ELSE -1]
        /\ p = [i \in PH |-> Dead]
        /\ s = [i \in SH |-> Dead]
        /\ g = [i \in GH |-> [st |-> -1, cv |-> 0, sch |-> 0]]
        /\ e = [i \in EH |-> Dead]
        /\ hist = <<<<"cinit", "c0">>, <<"cdef", "c0", "K1">>>>

More == Len(hist) < N
LF == {i \in FH : f[i] >= 0}      VF == {i \in FH : f[i] > 0}
LC == {i \in CH : c[i] >= 0}      VC == {i \in CH : c[i] > 0}
LP == {i \in PH : p[i].st >= 0}   VP == {i \in PH : p[i].st = 1}
VS == {i \in SH : s[i].st = 1}
VG == {i \in GH : g[i].st = 1}
VE == {i \in EH : e[i].st = 1}
InUse(i) == \/ \E j \in LP : i \in p[j].use
            \/ \E j \in VS : i \in s[j].use
            \/ \E j \in VE : i \in e[j].use
SchUsed(i) == \E j \in VG : g[j].sch = i

FKeep == UNCHANGED <<c, p, s, g, e>>
CKeep == UNCHANGED <<f, p, s, g, e>>
PKeep == UNCHANGED <<f, c, s, g, e>>
SKeep == UNCHANGED <<f, c, p, g, e>>
GKeep == UNCHANGED <<f, c, p, s, e>>
EKeep == UNCHANGED <<f, c, p, s, g>>
NoChange == UNCHANGED <<f, c, p, s, g, e>>

\* ---- fields
FInit == \E i \in FH \ LF, k \in FLD, how \in {"finit", "finitfp"} :
           f' = [f EXCEPT ![i] = 0] /\ Do(<<how, F(i), "F" \o St(k)>>) /\ FKeep
FClear == \E i \in LF : f' = [f EXCEPT ![i] = -1] /\ Do(<<"fclear", F(i)>>) /\ FKeep
FSet == \E i \in LF, k \in FLD, how \in {"fsetz", "fsetzfp", "fsetui"} :
           f' = [f EXCEPT ![i] = k] /\ Do(<<how, F(i), "F" \o St(k), IF how = "fsetui" THEN "U" ELSE "Z">>) /\ FKeep
FBin == \E d \in LF, a \in VF, b \in VF, op \in {"fadd", "fsub", "fmul"} :
           f[a] = f[b] /\ f' = [f EXCEPT ![d] = f[a]] /\ Do(<<op, F(d), F(a), F(b)>>) /\ FKeep
FUn == \E d \in LF, a \in VF, op \in {"fset", "fsqr", "fneg"} :
           f' = [f EXCEPT ![d] = f[a]] /\ Do(<<op, F(d), F(a)>>) /\ FKeep
FUi == \E d \in LF, a \in VF, op \in {"faddui", "fsubui", "fmului", "fpowui", "fpow"} :
           f' = [f EXCEPT ![d] = f[a]] /\ Do(<<op, F(d), F(a), "U">>) /\ FKeep
FTry == \E d \in LF, a \in VF, op \in {"finv", "fsqrt"} :       \* may fail: the destination then holds nothing
           f' = [f EXCEPT ![d] = 0] /\ Do(<<op, F(d), F(a)>>) /\ FKeep
FAsk == \E a \in VF, b \in VF : f[a] = f[b] /\ Do(<<"fcmp", F(a), F(b)>>) /\ NoChange
FSwap == \E a \in VF, b \in VF, w \in {"0", "1"} : a # b /\ f[a] = f[b]
           /\ Do(IF w = "0" THEN <<"fswap", F(a), F(b)>> ELSE <<"fcswap", F(a), F(b), "W">>)
           /\ NoChange

\* ---- curves
CInit == \E i \in CH \ LC : c' = [c EXCEPT ![i] = 0] /\ Do(<<"cinit", C(i)>>) /\ CKeep
CClear == \E i \in LC : ~InUse(i) /\ c' = [c EXCEPT ![i] = -1] /\ Do(<<"cclear", C(i)>>) /\ CKeep
CDef == \E i \in LC, k \in CV : ~InUse(i) /\ c' = [c EXCEPT ![i] = k] /\ Do(<<"cdef", C(i), "K" \o St(k)>>) /\ CKeep
CBad == \E i \in LC : ~InUse(i) /\ c' = [c EXCEPT ![i] = 0] /\ Do(<<"cdefbad", C(i), "K1">>) /\ CKeep
CSet == \E i \in LC, j \in VC : ~InUse(i) /\ c' = [c EXCEPT ![i] = c[j]] /\ Do(<<"cset", C(i), C(j)>>) /\ CKeep
CAsk == \E i \in VC, j \in VC : Do(<<"ccmp", C(i), C(j)>>) /\ NoChange

\* ---- points
Val(cv, use) == [st |-> 1, cv |-> cv, use |-> use, tab |-> FALSE]
\* destination d becomes a value on curve cv, keeping the knowledge whether it may carry tables
To(d, cv, use) == [p EXCEPT ![d] = [Val(cv, use) EXCEPT !.tab = p[d].tab]]
PInit == \E i \in PH \ LP, k \in VC : p' = [p EXCEPT ![i] = [Dead EXCEPT !.st = 0, !.use = {k}]] /\ Do(<<"pinit", P(i), C(k)>>) /\ PKeep
PClear == \E i \in LP : p' = [p EXCEPT ![i] = Dead] /\ Do(<<"pclear", P(i)>>) /\ PKeep
PSetz == \E d \in LP, k \in VC, how \in {"psetz", "psetz", "pneut", "pdec", "pdecs", "pdecbad"} :
           /\ how = "pdecbad" => p[d].st = 1
           /\ p' = IF how = "pdecbad" THEN p ELSE To(d, c[k], {k})
           /\ Do(<<how, P(d), "K" \o St(c[k]), C(k)>>) /\ PKeep
PSetf == \E d \in LP, a \in VF, k \in VC : f[a] = c[k] /\ p' = To(d, c[k], {k})
           /\ Do(<<"psetf", P(d), F(a), C(k), "K" \o St(c[k])>>)
           /\ UNCHANGED <<f, c, s, g, e>>
PBin == \E d \in LP, a \in VP, b \in VP, op \in {"padd", "psub"} :
           p[a].cv = p[b].cv /\ p' = To(d, p[a].cv, p[a].use \cup p[b].use) /\ Do(<<op, P(d), P(a), P(b)>>) /\ PKeep
PUn == \E d \in LP, a \in VP, op \in {"pset", "pdbl", "pneg"} :
           p' = To(d, p[a].cv, p[a].use) /\ Do(<<op, P(d), P(a)>>) /\ PKeep
PMulZ == \E d \in LP, a \in VP, op \in {"pmulz", "pbmulz"} :
           /\ p' = LET q == To(d, p[a].cv, p[a].use) IN IF op = "pbmulz" THEN [q EXCEPT ![a].tab = TRUE] ELSE q
           /\ Do(<<op, P(d), P(a), "S">>) /\ PKeep
PMul == \E d \in LP, a \in VP, k \in VF, op \in {"pmul", "pbmul"} :
           /\ f[k] = Ord(p[a].cv)
           /\ p' = LET q == To(d, p[a].cv, p[a].use) IN IF op = "pbmul" THEN [q EXCEPT ![a].tab = TRUE] ELSE q
           /\ Do(<<op, P(d), P(a), F(k)>>) /\ PKeep
PPrep == \E a \in VP : p' = [p EXCEPT ![a].tab = TRUE] /\ Do(<<"pbset", P(a)>>) /\ PKeep
PAsk == \/ \E a, b \in VP : Do(<<"pcmp", P(a), P(b)>>) /\ NoChange
        \/ \E a \in VP, w \in {"pgetz", "penc"} : Do(<<w, P(a)>>) /\ NoChange
PSwap == \E a, b \in VP, w \in {"0", "1"} : a # b /\ p[a].cv = p[b].cv
           /\ (w = "1" => ~p[a].tab /\ ~p[b].tab)
           /\ LET u == p[a].use \cup p[b].use  t == p[a].tab \/ p[b].tab
              IN p' = [p EXCEPT ![a] = [p[a] EXCEPT !.use = u, !.tab = t], ![b] = [p[b] EXCEPT !.use = u, !.tab = t]]
           /\ Do(IF w = "0" THEN <<"pswap", P(a), P(b)>> ELSE <<"pcswap", P(a), P(b), "W">>) /\ PKeep

\* ---- ECDSA
SInit == \E i \in SH \ VS, k \in VC : s' = [s EXCEPT ![i] = Val(c[k], {k})] /\ Do(<<"sch", S(i), C(k), "H">>) /\ SKeep
SClear == \E i \in VS : ~SchUsed(i) /\ s' = [s EXCEPT ![i] = Dead] /\ Do(<<"schclear", S(i)>>) /\ SKeep
GSign == \E i \in GH \ VG, j \in VS, k \in VF : f[k] = Ord(s[j].cv)
           /\ g' = [g EXCEPT ![i] = [st |-> 1, cv |-> s[j].cv, sch |-> j]] /\ Do(<<"sign", G(i), S(j), F(k), "K" \o St(s[j].cv), "M">>) /\ GKeep
GImport == \E i \in GH \ VG, j \in VS :
           g' = [g EXCEPT ![i] = [st |-> 1, cv |-> s[j].cv, sch |-> j]] /\ Do(<<"simp", G(i), S(j), "O" \o St(s[j].cv)>>) /\ GKeep
GBad == \/ \E i \in GH \ VG, j \in VS : Do(<<"simpbad", G(i), S(j)>>) /\ NoChange
        \/ \E i \in GH \ VG, j \in VS, k \in VF : Do(<<"signbad", G(i), S(j), F(k), "F" \o St(f[k]), "K" \o St(s[j].cv)>>) /\ NoChange
GAsk == \E i \in VG, a \in VP : Do(<<"verify", G(i), P(a), "M">>) /\ NoChange
GExp == \E i \in VG, w \in {"sexp", "sexps"} : Do(<<w, G(i)>>) /\ NoChange
GClear == \E i \in VG : g' = [g EXCEPT ![i].st = -1] /\ Do(<<"sigclear", G(i)>>) /\ GKeep

\* ---- ElGamal
EEnc == \E i \in EH \ VE, a, b \in VP : p[a].cv = p[b].cv
           /\ e' = [e EXCEPT ![i] = Val(p[a].cv, p[a].use \cup p[b].use)] /\ Do(<<"enc", E(i), P(a), P(b)>>) /\ EKeep
EBad == \E i \in EH \ VE, a, b \in VP : p[a].cv # p[b].cv /\ Do(<<"encbad", E(i), P(a), P(b)>>) /\ NoChange
EDec == \E i \in VE, d \in PH \ LP, k \in VF : f[k] = Ord(e[i].cv)
           /\ p' = [p EXCEPT ![d] = Val(e[i].cv, e[i].use)] /\ Do(<<"dec", P(d), F(k), E(i)>>) /\ PKeep
EClear == \E i \in VE : e' = [e EXCEPT ![i] = Dead] /\ Do(<<"ctclear", E(i)>>) /\ EKeep

Next == /\ More
        /\ \/ FInit \/ FClear \/ FSet \/ FBin \/ FUn \/ FUi \/ FTry \/ FAsk \/ FSwap
           \/ CInit \/ CClear \/ CDef \/ CBad \/ CSet \/ CAsk
           \/ PInit \/ PClear \/ PSetz \/ PSetf \/ PBin \/ PUn \/ PMulZ \/ PMul \/ PPrep \/ PAsk \/ PSwap
           \/ SInit \/ SClear \/ GSign \/ GImport \/ GBad \/ GAsk \/ GExp \/ GClear
           \/ EEnc \/ EBad \/ EDec \/ EClear
Spec == Init /\ [][Next]_vars

Emit == More \/ PrintT(ToJson(hist))
\* nothing refers to a curve object that is not defined
Legal == /\ \A i \in LP : \A k \in p[i].use : c[k] > 0
         /\ \A i \in VS : \A k \in s[i].use : c[k] = s[i].cv
         /\ \A i \in VG : s[g[i].sch].st = 1
=============================================================================
