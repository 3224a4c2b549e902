----------------------------- MODULE GenFollow -----------------------------
\* Behaviours of AtopFollow as histories: what the writer does, between and within the reader's calls.
EXTENDS MCFollow, Json, TLC

CONSTANTS Depth,     \* calls per history
          Most       \* bytes appended at a time

VARIABLE hist

gvars == <<fvars, hist>>

GenInit == FInit /\ hist = <<>>

\* Within a call, part is the part of the log that is read next.
Growth(h) == [a |-> "grow", h |-> h, to |-> log'[h].avail, busy |-> busy[h], part |-> IF st[h].i = 0 THEN -1 ELSE st[h].b]

Grew  == IF hist = <<>> THEN FALSE ELSE hist[Len(hist)].a = "grow"
Calls == Cardinality({n \in 1..Len(hist) : hist[n].a # "grow"})
Fin == \A h \in Streams : busy[h] = 0 /\ (Calls >= Depth \/ st[h].lost)

GenNext ==
  /\ ~Fin
  /\ \E h \in Streams :
       \/ Step(h) /\ UNCHANGED hist
       \/ /\ Write(h) /\ log'[h].avail <= log[h].avail + Most
          /\ ~Grew                                         \* not everything at once
          /\ hist' = Append(hist, Growth(h))
       \/ Take(h) /\ hist' = Append(hist, [a |-> "next", h |-> h])
       \/ Follow(h) /\ hist' = Append(hist, [a |-> "iter", h |-> h, limit |-> its'[h][1].limit, raise |-> its'[h][1].raise, hdr |-> its'[h][1].hdr])

GenSpec == GenInit /\ [][GenNext]_gvars

Emit == Fin => PrintT("GEN " \o ToJson([log |-> log, hist |-> hist, got |-> got]))

=============================================================================
