------------------------------ MODULE Schedules -----------------------------
(***************************************************************************)
(* All schedules of a program with Threads threads whose calls make Points *)
(* accesses to shared memory in total, with at most Switches involuntary   *)
(* switches: a first thread, and positions at which another one continues  *)
(* (a thread which ends, or which has to wait for a lock, is followed by   *)
(* the next one).  Each reachable state is one schedule; driver/thr.c      *)
(* executes it.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
NTH    == atoi(IOEnv.THREADS)
Points == atoi(IOEnv.POINTS)
Pre    == atoi(IOEnv.SWITCHES)
VARIABLES first, at, cur
Init == first \in 0..(NTH - 1) /\ at = <<>> /\ cur = first
Last == IF at = <<>> THEN 0 ELSE at[Len(at)][1]
Next == /\ Len(at) < Pre
        /\ \E i \in (Last + 1)..Points : \E t \in (0..(NTH - 1)) \ {cur} :
             at' = Append(at, <<i, t>>) /\ cur' = t
        /\ UNCHANGED first
\* says every state once
Say == PrintT(ToJson(<<first>> \o at))
=============================================================================
