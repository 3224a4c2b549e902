------------------------------- MODULE MCHold -------------------------------
(***************************************************************************)
(* The reader as it builds and delivers samples and the caller as it keeps *)
(* and drops them, in all interleavings, to the end of the log, an error   *)
(* or the reader being abandoned.                                          *)
(***************************************************************************)
EXTENDS AtopHold, Integers

CONSTANT N                 \* samples of the log

VARIABLES
  reader,    \* "idle", "building", "ended"
  cur,       \* last sample delivered
  held,      \* samples the reader refers to
  kept       \* samples the caller refers to
vars == <<reader, cur, held, kept>>

Alive == held \cup kept

Init == reader = "idle" /\ cur = 0 /\ held = {} /\ kept = {}

Ask     == reader = "idle" /\ cur < N /\ reader' = "building" /\ held' = held \cup {cur + 1} /\ UNCHANGED <<cur, kept>>
Deliver == reader = "building" /\ reader' = "idle" /\ cur' = cur + 1 /\ held' = {cur + 1} /\ kept' = kept \cup {cur + 1}
\* The sample cannot be completed.
Fail    == reader = "building" /\ reader' = "ended" /\ held' = {} /\ UNCHANGED <<cur, kept>>
\* The end of the log, the limit, or the caller closes the reader.
Finish  == reader = "idle" /\ reader' = "ended" /\ held' = {} /\ UNCHANGED <<cur, kept>>
Drop    == \E s \in kept : kept' = kept \ {s} /\ UNCHANGED <<reader, cur, held>>
\* Dictionaries and rows of a sample that the caller has.
Use     == \E s \in kept : UNCHANGED vars

Next == Ask \/ Deliver \/ Fail \/ Finish \/ Drop \/ Use
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver)

TypeOK == reader \in {"idle", "building", "ended"} /\ cur \in 0..N /\ held \subseteq 1..N /\ kept \subseteq 1..N
\* However long the log, the reader refers to no more than the last sample and the one being built,
Bounded == Released(Alive, kept)
\* to none in the end,
Nothing == reader = "ended" => Alive = kept
\* and none is built before it is asked for.
OnDemand == \A s \in Alive : s <= cur + (IF reader = "building" THEN 1 ELSE 0)
\* What is dropped and not held does not come back.
Gone == [][\A s \in 1..cur : s \notin Alive => s \notin Alive']_vars
=============================================================================
