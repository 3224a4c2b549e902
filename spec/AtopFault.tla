----------------------------- MODULE AtopFault -----------------------------
(***************************************************************************)
(* Reading from a source that fails with errors of its own (input/output   *)
(* errors, time-outs, a container's checksum), and readers that are        *)
(* interrupted.  The error reaches the caller of the call during which it  *)
(* occurred; nothing of that call is remembered.  Once the source works    *)
(* again, the caller puts the stream back and goes on.                     *)
(***************************************************************************)
EXTENDS AtopReader

CONSTANT Trouble     \* most failures and interruptions

VARIABLES
  bad,     \* bad[h]: byte at which, and behind which, the source fails; Fine if nowhere
  left     \* failures and interruptions still to come

xvars == <<vars, bad, left>>

XInit == Init /\ bad = [h \in Streams |-> Fine] /\ left = Trouble

\* The source.
Break(h) == /\ left > 0 /\ bad[h] = Fine /\ busy[h] = 0
            /\ bad' \in {[bad EXCEPT ![h] = to] : to \in 0..log[h].avail}
            /\ left' = left - 1 /\ UNCHANGED vars
Mend(h)  == bad[h] # Fine /\ bad' = [bad EXCEPT ![h] = Fine] /\ UNCHANGED <<vars, left>>

\* Within a call: whether its next step reads, and up to which byte.
Reads(h) == IF busy[h] = 0 THEN FALSE
            ELSE LET it == its[h][busy[h]] IN it.state = "live" /\ (it.hdr \/ (MayRead(h) /\ st[h].b <= NBlocks(log[h])))
To(h)    == IF its[h][busy[h]].hdr THEN log[h].hdr
            ELSE IF st[h].b = 0 THEN PartAt(log[h], st[h].i, 0) + log[h].rec ELSE BlockAt(log[h], st[h].i, st[h].b + 1)
Struck(h) == Reads(h) /\ Hit(bad[h], To(h))

Step(h) == Inside(h) /\ ~Struck(h) /\ UNCHANGED <<bad, left>>
Raised(h) == st' = [st EXCEPT ![h].lost = TRUE] /\ Return(h, "fault") /\ UNCHANGED <<log, got, bad>>
SourceError(h) == Struck(h) /\ Raised(h) /\ UNCHANGED left
Interrupt(h)   == busy[h] # 0 /\ left > 0 /\ Raised(h) /\ left' = left - 1

\* Direct calls.
DirectTo(h) == LET f == log[h]  i == st[h].i  b == st[h].b IN
               IF i = 0 THEN f.hdr ELSE IF b = 0 THEN PartAt(f, i, 0) + f.rec ELSE BlockAt(f, i, b + BlocksPerCall(f, b))
MayDirect(h) == Idle(h) /\ (AtSample(h) => Next_(log[h], st[h].i) = "sample")
Direct(h) == /\ MayDirect(h) /\ ~Hit(bad[h], DirectTo(h))
             /\ GetHeader(h) \/ GetRecord(h) \/ GetBlock(h)
             /\ UNCHANGED <<bad, left>>
DirectError(h) == /\ MayDirect(h)
                  /\ \/ Hit(bad[h], DirectTo(h)) /\ UNCHANGED left
                     \/ left > 0 /\ left' = left - 1
                  /\ st' = [st EXCEPT ![h].lost = TRUE]
                  /\ res' = [res EXCEPT ![h] = "fault"]
                  /\ UNCHANGED <<log, its, busy, got, bad>>

\* One iteration after the other.
Reading(h) == IF its[h] = <<>> THEN FALSE ELSE its[h][1].state = "live"
Again(h) ==
  /\ Idle(h) /\ ~Reading(h)
  /\ \E lm \in Limits, r \in BOOLEAN :
       its' = [its EXCEPT ![h] = <<[state |-> "live", limit |-> lm, raise |-> r, hdr |-> st[h].i = 0, n |-> 0]>>]
  /\ res' = [res EXCEPT ![h] = "iter"]
  /\ UNCHANGED <<log, st, busy, got, bad, left>>
Take(h)   == Reading(h) /\ CallNext(h, 1) /\ UNCHANGED <<bad, left>>
Return_(h) == Back(h) /\ UNCHANGED <<bad, left>>

XNext == \E h \in Streams : \/ Break(h) \/ Mend(h) \/ Step(h) \/ SourceError(h) \/ Interrupt(h)
                            \/ Direct(h) \/ DirectError(h) \/ Again(h) \/ Take(h) \/ Return_(h)
XSpec == XInit /\ [][XNext]_xvars
         /\ \A h \in Streams : /\ WF_xvars(Step(h) \/ SourceError(h)) /\ WF_xvars(Take(h)) /\ WF_xvars(Again(h)) /\ WF_xvars(Direct(h))
                               /\ WF_xvars(Return_(h)) /\ WF_xvars(Mend(h))

---------------------------------------------------------------------------

Ends_(h) == busy[h] # 0 /\ busy'[h] = 0 /\ its[h][busy[h]].state = "live"

\* What trace validation takes for the result of a call; an interruption (left' < left) is passed on as well.
AsFailing ==
  [][\A h \in Streams : Ends_(h) /\ st[h].i >= 1 =>
       LET it == its[h][busy[h]] IN
       IF left' < left THEN res'[h] = "fault"
       ELSE res'[h] \in IF it.hdr /\ bad[h] < log[h].hdr THEN {"fault"} ELSE Failing(log[h], bad[h], st[h].i, it.limit, it.raise, it.n)]_xvars

\* A failure is never taken for the end, or for a damaged sample: how a call ends other than with it is justified by the bytes that could be read.
NeverHidden ==
  [][\A h \in Streams : Ends_(h) /\ res'[h] \in {"end", "trunc"} /\ st[h].i >= 1 /\ its[h][busy[h]].n < its[h][busy[h]].limit =>
       /\ ~Intact(log[h], st[h].i)
       /\ Next_(log[h], st[h].i) \in {"none", "part", "mark"} => ~Hit(bad[h], PartAt(log[h], st[h].i, 0) + log[h].rec)]_xvars

\* One that lies behind what a call reads does not concern it.
Undisturbed ==
  [][\A h \in Streams : Ends_(h) /\ res'[h] = "fault" /\ left' = left /\ st[h].i >= 1 =>
       bad[h] < (IF Next_(log[h], st[h].i) = "sample" THEN EndOf(log[h], st[h].i) ELSE PartAt(log[h], st[h].i, 0) + log[h].rec)]_xvars

\* In the end everything there is was delivered, once.
AllThere == \A h \in Streams : <>(Len(got[h]) = Cardinality({i \in 1..Len(log[h].s) : \A j \in 1..i : Intact(log[h], j)}))

=============================================================================
