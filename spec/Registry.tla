------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* What the library keeps for itself between calls and shares between the  *)
(* threads of a program: the list of fields (one descriptor per modulus,   *)
(* created when a modulus is first used) and the stream of random bytes    *)
(* (opened when first used).  One step is one access to shared memory.     *)
(*                                                                         *)
(* Locked = TRUE is the library; Locked = FALSE is the library as it was,  *)
(* the negative control: TLC finds a thread which follows a link to a      *)
(* descriptor not yet filled in, two descriptors for one modulus, a lost   *)
(* descriptor and a lost stream.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Moduli, Calls, Locked
\* Calls: library calls of each thread; a call looks up a modulus, or (0) draws random bytes

RAW == -1   NONE == 0           \* memory as it comes from the allocator; the end of the list
VARIABLES head,   \* 0 or the number of the first descriptor
          nodes,  \* descriptors: [p |-> RAW or modulus, next |-> RAW, NONE or number]
          stream, \* number of the stream in use, 0: not open
          opened, \* streams opened
          owner,  \* 0: the lock is free
          pc, link, want, new, left, res
vars == <<head, nodes, stream, opened, owner, pc, link, want, new, left, res>>

Init == /\ head = NONE /\ nodes = <<>> /\ stream = 0 /\ opened = 0 /\ owner = 0
        /\ pc = [t \in Threads |-> "idle"] /\ link = [t \in Threads |-> 0]      \* link 0: head; i: nodes[i].next
        /\ want = [t \in Threads |-> 0] /\ new = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Calls] /\ res = {}

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ \E m \in Moduli \cup {0} : want' = [want EXCEPT ![t] = m]
           /\ Go(t, "enter") /\ UNCHANGED <<head, nodes, stream, opened, owner, link, new, res>>
Enter(t) == /\ pc[t] = "enter"
            /\ IF Locked THEN owner = 0 /\ owner' = t ELSE UNCHANGED owner
            /\ link' = [link EXCEPT ![t] = 0]
            /\ Go(t, IF want[t] = 0 THEN "stream" ELSE "walk")
            /\ UNCHANGED <<head, nodes, stream, opened, want, new, left, res>>
Target(t) == IF link[t] = 0 THEN head ELSE IF link[t] \in DOMAIN nodes THEN nodes[link[t]].next ELSE NONE
Walk(t) == /\ pc[t] = "walk"
           /\ Go(t, IF Target(t) = NONE THEN "create" ELSE "compare")
           /\ UNCHANGED <<head, nodes, stream, opened, owner, link, want, new, left, res>>
Compare(t) == /\ pc[t] = "compare"
              /\ LET n == Target(t) IN
                 IF n \in DOMAIN nodes /\ nodes[n].p = want[t]
                 THEN /\ Go(t, "leave") /\ new' = [new EXCEPT ![t] = n] /\ UNCHANGED link
                 ELSE /\ Go(t, "walk") /\ link' = [link EXCEPT ![t] = n] /\ UNCHANGED new
              /\ UNCHANGED <<head, nodes, stream, opened, owner, want, left, res>>
Create(t) == /\ pc[t] = "create"        \* allocate and link
             /\ LET n == Len(nodes) + 1
                    ns == Append(nodes, [p |-> RAW, next |-> RAW]) IN
                /\ new' = [new EXCEPT ![t] = n]
                /\ IF link[t] = 0 THEN head' = n /\ nodes' = ns
                   ELSE UNCHANGED head /\ nodes' = [ns EXCEPT ![link[t]].next = n]
             /\ Go(t, "fill") /\ UNCHANGED <<stream, opened, owner, link, want, left, res>>
Fill(t) == /\ pc[t] = "fill" /\ nodes' = [nodes EXCEPT ![new[t]].p = want[t]]
           /\ Go(t, "end") /\ UNCHANGED <<head, stream, opened, owner, link, want, new, left, res>>
End(t) == /\ pc[t] = "end" /\ nodes' = [nodes EXCEPT ![new[t]].next = NONE]
          /\ Go(t, "leave") /\ UNCHANGED <<head, stream, opened, owner, link, want, new, left, res>>
Stream(t) == /\ pc[t] = "stream"
             /\ Go(t, IF stream = 0 THEN "open" ELSE "leave")
             /\ UNCHANGED <<head, nodes, stream, opened, owner, link, want, new, left, res>>
Open(t) == /\ pc[t] = "open" /\ opened' = opened + 1 /\ stream' = opened + 1
           /\ Go(t, "leave") /\ UNCHANGED <<head, nodes, owner, link, want, new, left, res>>
Leave(t) == /\ pc[t] = "leave"
            /\ IF Locked THEN owner' = 0 ELSE UNCHANGED owner
            /\ IF want[t] = 0 THEN UNCHANGED res ELSE res' = res \cup {<<want[t], new[t]>>}
            /\ Go(t, "idle") /\ UNCHANGED <<head, nodes, stream, opened, link, want, new, left>>
Next == \E t \in Threads : \/ Call(t) \/ Enter(t) \/ Walk(t) \/ Compare(t) \/ Create(t) \/ Fill(t) \/ End(t)
                           \/ Stream(t) \/ Open(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Enter(t)) /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* no thread follows a link, or compares a modulus, which has not been written yet
NothingHalfMade == \A t \in Threads :
  /\ pc[t] \in {"walk", "compare"} => (link[t] = 0 \/ (link[t] \in DOMAIN nodes /\ nodes[link[t]].next # RAW))
  /\ pc[t] = "compare" => (Target(t) \in DOMAIN nodes /\ nodes[Target(t)].p # RAW)
\* elements of one modulus have one field, whoever created them
OneField == \A a, b \in res : a[1] = b[1] => a[2] = b[2]
\* what a call returned is the field of its modulus
RightField == \A a \in res : nodes[a[2]].p = a[1]
RECURSIVE Reach(_, _)
Reach(n, k) == IF n \notin DOMAIN nodes \/ k = 0 THEN {} ELSE {n} \cup Reach(nodes[n].next, k - 1)
NothingLost == /\ (\A t \in Threads : pc[t] # "fill" /\ pc[t] # "end") => Reach(head, Len(nodes)) = DOMAIN nodes
               /\ opened <= 1
\* every call returns
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
