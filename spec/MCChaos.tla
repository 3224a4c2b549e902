------------------------------ MODULE MCChaos ------------------------------
\* The reader of AtopChaos over bytes that say anything.
EXTENDS AtopChaos

CONSTANTS Rec, Blocks, MaxSize, MaxLen

VARIABLES size,    \* bytes behind the header
          raise,   \* whether truncation errors are enabled
          pos, b,  \* position, and the part that is next (0 the record)
          lens,    \* what the record says about the lengths of the blocks
          n,       \* samples delivered
          out      \* "" while reading, else how it ended
vars == <<size, raise, pos, b, lens, n, out>>

Init == /\ size \in 0..MaxSize /\ raise \in BOOLEAN
        /\ pos = 0 /\ b = 0 /\ lens = [x \in 1..Blocks |-> 0] /\ n = 0 /\ out = ""

Min(x, y) == IF x < y THEN x ELSE y
Trunc == IF raise THEN {"zlib.error", "EOFError"} ELSE {"end"}

\* What is there of a record.
Record ==
  /\ out = "" /\ b = 0
  /\ pos' = Min(size, pos + Rec)
  /\ \/ /\ pos + Rec <= size /\ b' = 1 /\ UNCHANGED out
        /\ lens' \in [1..Blocks -> 0..MaxLen] /\ lens'[1] > 0
     \/ /\ out' = "end" /\ UNCHANGED <<b, lens>>                        \* the end, or the mark of it
     \/ /\ pos + Rec > size /\ pos < size /\ out' \in Trunc /\ UNCHANGED <<b, lens>>
  /\ UNCHANGED <<size, raise, n>>

\* A block: as long as it is said to be, or as long as there is something.
Block ==
  /\ out = "" /\ b \in 1..Blocks
  /\ pos' = Min(size, pos + lens[b])
  /\ \/ b' = b + 1 /\ UNCHANGED out                                     \* it holds what it should
     \/ out' \in Trunc \cup {"ValueError"} /\ UNCHANGED b
  /\ UNCHANGED <<size, raise, lens, n>>

Deliver == /\ out = "" /\ b = Blocks + 1 /\ n' = n + 1 /\ b' = 0
           /\ UNCHANGED <<size, raise, pos, lens, out>>

Next == Record \/ Block \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Known == out # "" => out \in Ends(raise)
Few   == n <= MostSamples(size, Rec) /\ n * Rec <= pos
Onward == [][pos' >= pos /\ (b = 0 /\ b' = 1 => pos' >= pos + Rec)]_vars
EndsAll == <>(out # "")

=============================================================================
