------------------------------ MODULE MCWorld ------------------------------
\* Any history of calls, each changing what it may: what no call may change never changes, what one was given to
\* read is still there, and standard output and error only ever grow by the command.
EXTENDS AtopWorld

CONSTANTS Size, Most

VARIABLES world,  \* [position, source, stdout, stderr, rest]
          last,   \* the call made last
          n
vars == <<world, last, n>>

World0 == [position |-> 0, source |-> Size, stdout |-> 0, stderr |-> 0, rest |-> 0]
Init == world = World0 /\ last = "none" /\ n = 0

\* What a call may do to an aspect it may change.
May(a, w) == CASE a = "position" -> w.position..w.source
               [] a \in {"stdout", "stderr"} -> {x \in w[a]..(w[a] + 1) : x <= Most}
               [] OTHER -> {w[a]}

Call(c) ==
  /\ n < Most /\ n' = n + 1 /\ last' = c
  /\ \E w \in [DOMAIN world -> 0..(Size + Most)] :
       /\ \A a \in DOMAIN world : IF a \in Touches(c) THEN w[a] \in May(a, world) ELSE w[a] = world[a]
       /\ world' = w

Next == \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_vars

Frame    == world.rest = World0.rest /\ world.source = World0.source
Quiet    == [][\A c \in Calls : last' = c /\ c \notin {"command", "failing command"} => world'.stdout = world.stdout /\ world'.stderr = world.stderr]_vars
Reported == [][last' \in Calls => Changed(last', world, world') = {}]_vars
\* Any change of another aspect would be reported.
Sees == \A c \in Calls : \A a \in DOMAIN world : a \notin Touches(c) => Changed(c, world, [world EXCEPT ![a] = @ + 1]) = {a}

=============================================================================
