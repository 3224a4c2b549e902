------------------------------ MODULE MCFault ------------------------------
\* AtopFault over small logs: every byte at which a source may fail, interruptions before every step.
EXTENDS AtopFault, MCReader

\* Damaged ones as well.
Damaged == {Whole(cg, [k \in 1..2 |-> <<Ones(cg), IF k = 2 THEN [Plain(cg) EXCEPT ![x] = y] ELSE Plain(cg)>>]) : cg \in BOOLEAN, x \in {1, 2}, y \in {"bad", "short"}}
\* One complete sample.
PairLogs  == {f \in OneLogs : f.avail = Full(f) /\ ~f.cg}
FaultLogs == FewLogs \cup Damaged

=============================================================================
