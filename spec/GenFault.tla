------------------------------ MODULE GenFault ------------------------------
\* Behaviours of AtopFault as histories: calls, failures of the source, interruptions, and going back.
EXTENDS MCFault, Json, TLC

CONSTANT Depth     \* events per history

VARIABLE hist

gvars == <<xvars, hist>>
GenInit == XInit /\ hist = <<>>

Fin == busy[1] = 0 /\ Len(hist) >= Depth
Did(e) == hist' = Append(hist, e)
LastOf(kinds) == \E n \in 1..Len(hist) : hist[n].a \in kinds /\ \A m \in (n + 1)..Len(hist) : hist[m].a \notin {"header", "record", "block", "next"}
Kind == IF st[1].i = 0 THEN "header" ELSE IF st[1].b = 0 THEN "record" ELSE "block"

GenNext ==
  /\ ~Fin
  /\ \/ Step(1) /\ UNCHANGED hist
     \/ SourceError(1) /\ UNCHANGED hist
     \/ Reads(1) /\ Interrupt(1) /\ Did([a |-> "interrupt", i |-> st[1].i, b |-> st[1].b])
     \/ Break(1) /\ Did([a |-> "break", to |-> bad'[1]])
     \/ busy[1] = 0 /\ Mend(1) /\ Did([a |-> "mend"])
     \/ Direct(1) /\ Did([a |-> Kind, b |-> st[1].b])
     \/ DirectError(1) /\ Did([a |-> Kind, b |-> st[1].b, stop |-> left' < left])
     \/ Again(1) /\ Did([a |-> "iter", limit |-> its'[1][1].limit, raise |-> its'[1][1].raise, hdr |-> its'[1][1].hdr])
     \/ Take(1) /\ Did([a |-> "next"])
     \/ Return_(1) /\ (st'[1].b = 0 \/ LastOf({"header", "record", "block"})) /\ Did([a |-> "back", i |-> st'[1].i, b |-> st'[1].b])

GenSpec == GenInit /\ [][GenNext]_gvars
Emit == Fin => PrintT("GEN " \o ToJson([log |-> log, hist |-> hist, got |-> got]))

=============================================================================
