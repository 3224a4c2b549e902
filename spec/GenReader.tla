----------------------------- MODULE GenReader -----------------------------
\* Behaviours of AtopReader as call histories, printed for replay into the real code.
EXTENDS MCReader, Json, TLC

CONSTANTS Depth,       \* calls per history
          Straight     \* only: header, one iterator, its calls up to the end

VARIABLE hist

GenInit == Init /\ hist = <<>>

Do(op, act) == act /\ hist' = Append(hist, op)

FreeCall(h) ==
  \/ Do([a |-> "header", h |-> h], GetHeader(h))
  \/ Do([a |-> "record", h |-> h], GetRecord(h))
  \/ Do([a |-> "block", h |-> h, b |-> st[h].b], GetBlock(h))
  \/ \E l \in Limits, r \in BOOLEAN, hd \in BOOLEAN :
       Do([a |-> "iter", h |-> h, limit |-> l, raise |-> r, hdr |-> hd], NewIter(h, l, r, hd))
  \/ \E n \in 1..MaxIters : Do([a |-> "next", h |-> h, k |-> n], CallNext(h, n))

StraightCall(h) ==
  \/ its[h] = <<>> /\ Do([a |-> "header", h |-> h], GetHeader(h))
  \/ \E l \in Limits, r \in BOOLEAN : LET hd == st[h].i = 0 IN
       Do([a |-> "iter", h |-> h, limit |-> l, raise |-> r, hdr |-> hd], NewIter(h, l, r, hd))
  \/ its[h] # <<>> /\ its[h][1].state = "live" /\ Do([a |-> "next", h |-> h, k |-> 1], CallNext(h, 1))

AllIdle == \A h \in Streams : busy[h] = 0

GenNext ==
  \/ \E h \in Streams : Inside(h) /\ UNCHANGED hist
  \/ /\ AllIdle /\ Len(hist) < Depth
     /\ \E h \in Streams : IF Straight THEN StraightCall(h) ELSE FreeCall(h)

GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>

Done == AllIdle /\ IF Straight THEN \A h \in Streams : its[h] # <<>> /\ its[h][1].state = "dead"
                   ELSE Len(hist) = Depth

\* Printed once per behaviour, together with what was handed out.
Emit == Done => PrintT("GEN " \o ToJson([log |-> log, hist |-> hist, got |-> got]))

=============================================================================
