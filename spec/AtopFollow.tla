----------------------------- MODULE AtopFollow -----------------------------
(***************************************************************************)
(* A log that is read while it is still being written.  The writer appends *)
(* at any time, also during a call of the reader, which reads a sample in  *)
(* several steps.  The reader takes what there is; when an iteration ends  *)
(* it starts another one on the same stream, as long as its position is    *)
(* meaningful.                                                             *)
(***************************************************************************)
EXTENDS AtopReader

CONSTANT Entire       \* the writer appends complete samples only

VARIABLE began       \* began[h]: how much of the log existed when the current call began

fvars == <<vars, began>>

FInit == /\ Init
         /\ \A h \in Streams : log[h].avail = log[h].hdr      \* so far only the header was written
         /\ began = [h \in Streams |-> 0]

Boundary(f, a) == \E i \in 1..(Len(f.s) + 1) : a = PartAt(f, i, 0)

Write(h) == /\ \E to \in (log[h].avail + 1)..Full(log[h]) : (Entire => Boundary(log[h], to)) /\ Grow(h, to)
            /\ UNCHANGED began

Reading(h) == IF its[h] = <<>> THEN FALSE ELSE its[h][1].state = "live"

\* One iteration after the other.
Follow(h) ==
  /\ Idle(h) /\ ~Reading(h)
  /\ \E l \in Limits, r \in BOOLEAN :
       its' = [its EXCEPT ![h] = <<[state |-> "live", limit |-> l, raise |-> r, hdr |-> st[h].i = 0, n |-> 0]>>]
  /\ res' = [res EXCEPT ![h] = "iter"]
  /\ UNCHANGED <<log, st, busy, got, began>>

Take(h) == Reading(h) /\ CallNext(h, 1) /\ began' = [began EXCEPT ![h] = log[h].avail]
Step(h) == Inside(h) /\ UNCHANGED began

FNext == \E h \in Streams : Write(h) \/ Follow(h) \/ Take(h) \/ Step(h)
FSpec == FInit /\ [][FNext]_fvars
         /\ \A h \in Streams : WF_fvars(Step(h)) /\ WF_fvars(Take(h)) /\ WF_fvars(Follow(h)) /\ WF_fvars(Write(h))

---------------------------------------------------------------------------

Returning(h) == busy[h] # 0 /\ busy'[h] = 0

\* A sample that was complete when the call began is delivered by it; one that is not complete when the call ends is not.
Complete_When ==
  [][\A h \in Streams : Returning(h) =>
       LET f == log[h]  i == st[h].i  it == its[h][1] IN
       /\ res'[h] = "sample" => EndOf(f, i) <= f.avail
       /\ it.n < it.limit /\ i >= 1 /\ i <= Len(f.s) /\ EndOf(f, i) <= began[h] => res'[h] = "sample"]_fvars

\* What trace validation takes for the result of a call during which the log grows.
AsSummarized ==
  [][\A h \in Streams : Returning(h) =>
       res'[h] \in Growing([log[h] EXCEPT !.avail = began[h]], began[h]..log[h].avail, st[h].i, its[h][1].limit, its[h][1].raise, its[h][1].n)]_fvars

\* Whoever ends quietly between two samples stays there and can go on.
StaysPut ==
  [][\A h \in Streams : Returning(h) /\ res'[h] = "end" =>
       /\ ~st'[h].lost => st'[h].pos = PartAt(log[h], Len(got[h]) + 1, 0)
       /\ Boundary(log[h], began[h]) /\ log[h].avail = began[h] => ~st'[h].lost]_fvars

\* In the end everything was delivered, unless the reader once met half a sample.
CaughtUp == \A h \in Streams : <>(Len(got[h]) = Len(log[h].s) \/ st[h].lost)
\* A writer that appends complete samples never leaves it with half a one.
NeverLost == Entire => \A h \in Streams : ~st[h].lost

=============================================================================
