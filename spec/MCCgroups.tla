----------------------------- MODULE MCCgroups -----------------------------
(***************************************************************************)
(* A writer puts one cgroup entry after the other into a cgroup section;   *)
(* Walk must find exactly what was written, and no more than what a block  *)
(* that was cut short still holds.                                         *)
(***************************************************************************)
EXTENDS AtopCgroups

CONSTANTS Names, Procs, MaxEntries, Struct

VARIABLES
  sec,      \* content of the section
  size,     \* its size
  ids,      \* content of the process id block
  nids,     \* number of ids in it
  list      \* what was written: <<[at, len, pid, np]>>
vars == <<sec, size, ids, nids, list>>

Le(n, k) == [i \in 1..k |-> (n \div (256 ^ (i - 1))) % 256]

Init == sec = [seed |-> 7, pokes |-> <<>>] /\ size = 0 /\ ids = [seed |-> 0, pokes |-> <<>>] /\ nids = 0 /\ list = <<>>

\* The id written for process k of entry e.
IdOf(e, k) == 100 * e + k

Write(name, np) ==
  LET fixed == SizeOf(Struct)
      f(p)  == At(Struct, <<"gen", p>>).off
  IN  /\ Len(list) < MaxEntries
      /\ sec' = [sec EXCEPT !.pokes = @ \o Ordered(<< [o |-> size + f("structlen"), b |-> Le(fixed + name, 4)],
                                             [o |-> size + f("nprocs"), b |-> Le(np, 4)] >>)]
      /\ size' = size + fixed + name
      /\ ids' = [ids EXCEPT !.pokes = @ \o [k \in 1..np |-> [o |-> 4 * (nids + k - 1), b |-> Le(IdOf(Len(list) + 1, k), 4)]]]
      /\ nids' = nids + np
      /\ list' = Append(list, [at |-> size, len |-> fixed + name, pid |-> nids, np |-> np])

Next == \E name \in Names, np \in Procs : Write(name, np)
Spec == Init /\ [][Next]_vars

\* C06: every entry is found where it was written.
Found == Walk(sec, size, Struct, Len(list)) = list
\* Every process id list is that of its entry.
Matched == \A e \in 1..Len(list) : \A k \in 1..list[e].np : Pid(ids, list[e].pid + k - 1) = NumOf(IdOf(e, k))
\* Fewer are found exactly if the fixed part of one no longer fits.
CutShort == \A x \in {1, SizeOf(Struct) - 1, SizeOf(Struct)} :
              Len(list) > 0 /\ x <= list[Len(list)].len =>
                Len(Walk(sec, size - x, Struct, Len(list)))
                  = IF list[Len(list)].len - x >= SizeOf(Struct) THEN Len(list) ELSE Len(list) - 1
\* Declaring fewer entries gives a prefix.
Prefixed == \A n \in 0..Len(list) : Walk(sec, size, Struct, n) = SubSeq(list, 1, n)
\* An entry that claims to be shorter than its fixed part, or to have less than no processes, is where it ends.
Claim(e, field, b) == [sec EXCEPT !.pokes = [p \in 1..Len(@) |-> IF @[p].o = list[e].at + At(Struct, <<"gen", field>>).off
                                                                 THEN [@[p] EXCEPT !.b = b] ELSE @[p]]]
Overlapping == \A e \in 1..Len(list) :
  /\ \A n \in {0, 1, SizeOf(Struct) - 1} : Len(Walk(Claim(e, "structlen", Le(n, 4)), size, Struct, Len(list))) = e - 1
  /\ \A f \in {"structlen", "nprocs"} : Len(Walk(Claim(e, f, <<255, 255, 255, 255>>), size, Struct, Len(list))) = e - 1
  /\ Walk(Claim(e, "structlen", Le(list[e].len, 4)), size, Struct, Len(list)) = list
PidsFit == PidsOf(list) = nids

=============================================================================
