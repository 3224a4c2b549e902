------------------------------ MODULE AtopLog ------------------------------
(***************************************************************************)
(* From the bytes of a log to what AtopReader sees of it.                  *)
(*                                                                         *)
(* A described log is [ver, hdr, rep, s]: format version, content of the   *)
(* header, and the samples, each                                           *)
(*   [rec, ss, ts, cs, pl, n, bad, id]                                     *)
(*     rec, ss, ts, cs, pl  contents of record and (decompressed) blocks   *)
(*     n    number of bytes the blocks decompress to                       *)
(*     bad  for each block, whether it was damaged so that it does not     *)
(*          decompress                                                     *)
(*     id   digests of record, system block, tasks and cgroups             *)
(* If rep > 0 the log consists of rep repetitions of its samples.          *)
(***************************************************************************)
EXTENDS AtopHeader, AtopCgroups

NumSamples(d) == IF d.rep > 0 THEN d.rep * Len(d.s) ELSE Len(d.s)
Samp(d, i)    == IF d.rep > 0 THEN d.s[((i - 1) % Len(d.s)) + 1] ELSE d.s[i]

RecNum(d, i, name) == Clip(NumOfPath(Samp(d, i).rec, Fmt[d.ver].record, <<name>>), 0, 16000000)

\* Number of tasks of sample i: the process list length in 1.26, the deviating tasks from 2.3 on.
TaskCount(d, i) == RecNum(d, i, IF d.ver = "1.26" THEN "nlist" ELSE "ndeviat")
CgCount(d, i)   == IF HasCgroups(d.ver) THEN RecNum(d, i, "ncgroups") ELSE 0

BlockNames(d) == IF HasCgroups(d.ver) THEN <<"scomplen", "pcomplen", "ccomplen", "icomplen">> ELSE <<"scomplen", "pcomplen">>
BlockLens(d, i) == [b \in 1..Len(BlockNames(d)) |-> RecNum(d, i, BlockNames(d)[b])]

\* The cgroups of sample i (found once and kept with the sample, see Seen).
WalkOf(d, i) ==
  IF ~HasCgroups(d.ver) THEN <<>>
  ELSE LET s == Samp(d, i) IN Walk(s.cs, s.n[3], Fmt[d.ver].cstat, CgCount(d, i))
Seen(d) == [d EXCEPT !.s = TLCEval([i \in 1..Len(d.s) |-> d.s[i] @@ [walk |-> TLCEval(WalkOf(d, i))]])]
Cgroups(d, i) == Samp(d, i).walk

\* Does block b hold less than its structure or its number of entries needs?
Short(d, i, b) ==
  LET s == Samp(d, i)
  IN  CASE b = 1 -> s.n[1] < SizeOf(Fmt[d.ver].sstat)
        [] b = 2 -> s.n[2] \div SizeOf(Fmt[d.ver].tstat) < TaskCount(d, i)
        [] b = 3 -> Len(Cgroups(d, i)) < CgCount(d, i)
        [] b = 4 -> s.n[4] \div PidSize < PidsOf(Cgroups(d, i))

Fault(d, i, b) == IF Samp(d, i).bad[b] THEN "bad" ELSE IF Short(d, i, b) THEN "short" ELSE "ok"

\* What AtopReader sees of sample i at offset at.
Frame(d, i, at) ==
  LET l == TLCEval(BlockLens(d, i))
  IN  [at |-> at, blk |-> l,
       fault |-> TLCEval([b \in 1..Len(l) |-> IF l[1] = 0 THEN "ok" ELSE Fault(d, i, b)])]

FrameLen(d, i) == SizeOf(Fmt[d.ver].record) + FoldLeft(LAMBDA a, x : a + x, 0, BlockLens(d, i))

\* The complete log (repetitions are not laid out: see TraceAtop.DrainFaults).
ReaderLog(d) ==
  FoldLeft(LAMBDA acc, i :
             [acc EXCEPT !.s = Append(@, Frame(d, i, acc.avail)), !.avail = @ + FrameLen(d, i)],
           [hdr |-> HeaderLen, rec |-> SizeOf(Fmt[d.ver].record), cg |-> HasCgroups(d.ver),
            avail |-> HeaderLen, torn |-> FALSE, s |-> <<>>],
           IF d.rep > 0 THEN <<>> ELSE [i \in 1..Len(d.s) |-> i])

---------------------------------------------------------------------------
\* Where part p of sample i is: [s, c, off], structure, content, offset.
\*   "hdr"; "rec", "ss"; "ts" and "cg" with 1-based index x.
PartOf(d, i, p, x) ==
  CASE p = "hdr" -> [s |-> Fmt[d.ver].header, c |-> d.hdr, off |-> 0]
    [] p = "rec" -> [s |-> Fmt[d.ver].record, c |-> Samp(d, i).rec, off |-> 0]
    [] p = "ss"  -> [s |-> Fmt[d.ver].sstat, c |-> Samp(d, i).ss, off |-> 0]
    [] p = "ts"  -> [s |-> Fmt[d.ver].tstat, c |-> Samp(d, i).ts, off |-> (x - 1) * SizeOf(Fmt[d.ver].tstat)]
    [] p = "cg"  -> [s |-> Fmt[d.ver].cstat, c |-> Samp(d, i).cs, off |-> Cgroups(d, i)[x].at]

\* Process ids of cgroup x of sample i.
PidList(d, i, x) ==
  LET e == Cgroups(d, i)[x] IN [k \in 1..e.np |-> Pid(Samp(d, i).pl, e.pid + k - 1)]

=============================================================================
