------------------------------- MODULE Memory --------------------------------
(***************************************************************************)
(* Memory discipline of the C library (properties C14 and C15).            *)
(*                                                                         *)
(* State: the objects the caller holds (as the calls' contracts make and   *)
(* release them), and, for every place in a script where no object is      *)
(* held, the number of memory blocks the library kept there when the       *)
(* script came by for the first time.                                      *)
(*                                                                         *)
(* An event is a call with what the allocator saw during it (driver/mem.c):*)
(*   m = <<live, bytes, gmplive, freed, gmpfreed, dirty, exposed, torn,    *)
(*         residue>>                                                       *)
(*   live     blocks held on behalf of the library after the call          *)
(*   dirty    big-number blocks that were not all zero when they were      *)
(*            handed back                                                  *)
(*   exposed  other blocks handed back with a secret in them               *)
(*   torn     blocks whose surroundings were overwritten                   *)
(*   residue  bytes other than zero in an object that was cleared          *)
(* Builds with a sanitizer or under valgrind log no figures; there a bad   *)
(* access ends the program, which is a CRASH event.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Cleaning == IOEnv.CLEAN = "1"      \* the cleaning allocator is enabled

VARIABLES l, held, base
vars == <<l, held, base>>

Makes == {"finit", "finitfp", "cinit", "pinit", "sch", "sign", "simp", "simps", "enc", "ctmake", "dec"}
Clears == {"fclear", "cclear", "pclear", "schclear", "sigclear", "ctclear"}

\* What the call did to the set of objects, as the driver reports it ...
Gone(e) == {e.c[i][1] : i \in {j \in DOMAIN e.c : e.c[j][2] = "gone"}}
Live(e) == {e.c[i][1] : i \in {j \in DOMAIN e.c : e.c[j][2] # "gone"}}
\* ... and what it may do: only calls that make objects make one, only calls that clear release one
Lawful(e) ==
  /\ Gone(e) # {} => e.op \in Clears \cup {"sweep"} /\ Gone(e) \subseteq held
  /\ e.op = "sweep" => Gone(e) = held
  /\ e.op \in Clears => Gone(e) = {e.a[1]}
  /\ Live(e) \ held # {} => e.op \in Makes /\ Live(e) \ held = {e.a[1]}

Figures(e) ==
  "m" \in DOMAIN e =>
    LET live == e.m[1] dirty == e.m[6] exposed == e.m[7] torn == e.m[8] residue == e.m[9] IN
    /\ live >= 0
    /\ torn = 0
    /\ Cleaning => dirty = 0 /\ exposed = 0 /\ residue = 0

Init == l = 1 /\ held = {} /\ base = [x \in {} |-> 0]

Call == /\ l <= Len(Log)
        /\ LET e == Log[l] IN
           /\ e.op \notin {"CRASH", "mark"}
           /\ Lawful(e)
           /\ Figures(e)
           /\ (e.op = "scr" => e.r = <<"1">>)
           /\ held' = (held \ Gone(e)) \cup Live(e)
        /\ base' = base /\ l' = l + 1

\* Nothing is held: the library keeps what it kept the first time, not a block more.
Mark == /\ l <= Len(Log)
        /\ LET e == Log[l] IN
           /\ e.op = "mark"
           /\ held = {}
           /\ Figures(e)
           /\ IF "m" \notin DOMAIN e THEN base' = base
              ELSE IF e.a[1] \in DOMAIN base THEN e.m[1] <= base[e.a[1]] /\ base' = base
              ELSE base' = base @@ (e.a[1] :> e.m[1])
        /\ held' = held /\ l' = l + 1

Next == Call \/ Mark
Spec == Init /\ [][Next]_vars
TypeOK == l >= 1 /\ \A k \in DOMAIN base : base[k] >= 0
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
