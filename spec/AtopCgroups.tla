---------------------------- MODULE AtopCgroups ----------------------------
(***************************************************************************)
(* The cgroup section of a sample (get_cstat).  Entries have different     *)
(* lengths (a name follows the fixed part), each says its own length and   *)
(* its number of processes; the process ids of all entries follow one      *)
(* another in a block of their own.  An entry is at least as long as its   *)
(* fixed part: entries do not overlap.                                     *)
(***************************************************************************)
EXTENDS AtopLayout

PidSize == 4

\* Entry at offset o of block content c.
StructLen(c, o, s) == Clip(NumAt(c, o + At(s, <<"gen", "structlen">>).off, "i32"), -1, 16000000)
NProcs(c, o, s)    == Clip(NumAt(c, o + At(s, <<"gen", "nprocs">>).off, "i32"), -1, 4000000)

\* The first n entries of a block of size bytes as <<[at, len, pid, np]>>: offset and length of the entry,
\* index of its first process id and number of them; shorter than n if the block does not hold n entries, one
\* behind the other.
Walk(c, size, s, n) ==
  FoldLeft(LAMBDA acc, k :
             IF \/ acc.stop \/ acc.at + SizeOf(s) > size
                \/ StructLen(c, acc.at, s) < SizeOf(s) \/ NProcs(c, acc.at, s) < 0 THEN [acc EXCEPT !.stop = TRUE]
             ELSE LET e == [at |-> acc.at, len |-> StructLen(c, acc.at, s), pid |-> acc.pid, np |-> NProcs(c, acc.at, s)]
                  IN  [acc EXCEPT !.at = @ + e.len, !.pid = @ + e.np, !.q = Append(@, e)],
           [at |-> 0, pid |-> 0, q |-> <<>>, stop |-> FALSE],
           [k \in 1..(IF n <= size \div SizeOf(s) THEN n ELSE size \div SizeOf(s)) |-> k]).q

PidsOf(w) == IF Len(w) = 0 THEN 0 ELSE w[Len(w)].pid + w[Len(w)].np

\* Process id number i (0-based) of the id block.
Pid(c, i) == NumAt(c, PidSize * i, "i32")

=============================================================================
