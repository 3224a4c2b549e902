----------------------------- MODULE AtopReader -----------------------------
(***************************************************************************)
(* Reading a raw log: the state machine behind get_header, get_record,     *)
(* get_sstat, get_tstat, get_cstat and generate_statistics.                *)
(*                                                                         *)
(* A log is the record                                                     *)
(*   [hdr, rec, cg, avail, torn, s]                                        *)
(*     hdr    length of the file header                                    *)
(*     rec    length of a record                                           *)
(*     cg     whether samples carry cgroup blocks (Atop 2.11 and later)    *)
(*     avail  number of bytes that exist; the log may be cut anywhere      *)
(*     torn   whether the source reports a missing end of its own (a cut   *)
(*            gzip file does, a plain file does not)                       *)
(*     s      the samples as written, each [at, blk, fault]:               *)
(*            at     offset of its record                                  *)
(*            blk    lengths of its compressed blocks in file order:       *)
(*                   system, tasks, and with cg: cgroups, process ids      *)
(*                   (0: that block was not written)                       *)
(*            fault  what is wrong with each block: "ok", "bad" (does not  *)
(*                   decompress) or "short" (decompresses to less than its *)
(*                   structure or its number of entries needs)             *)
(* A record whose system block has length 0 marks the end of a log.        *)
(*                                                                         *)
(* A stream is shared by every reader of it: direct calls (which read one  *)
(* part each) and iterators.  A call to an iterator is not atomic, since   *)
(* readers of other streams may run during it: CallNext starts it, the     *)
(* Read... actions do its reads, and it ends when idle again.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Streams,      \* identities of the open streams
  MaxIters,     \* iterators per stream
  Limits,       \* sample limits an iterator may be given
  Logs          \* the logs a stream may be over

VARIABLES
  log,          \* log[h]: the log under stream h (never changes, other than by Grow)
  st,           \* st[h]: the stream, [pos, i, b, lost]; next to read is part b of sample i
                \*        (b = 0 the record, b >= 1 block b; i = 0 the header); lost: position no longer meaningful
  its,          \* its[h]: iterators, [state, limit, raise, hdr, n]; hdr: has still to read the header; n: delivered
  busy,         \* busy[h]: the iterator inside whose call the stream is, 0 if none
  got,          \* got[h]: samples handed out so far in order, [by, i]; by = 0: by direct calls
  res           \* res[h]: result of the last completed call

vars == <<log, st, its, busy, got, res>>

---------------------------------------------------------------------------
\* Framing.

NBlocks(f) == IF f.cg THEN 4 ELSE 2
BlocksPerCall(f, b) == IF b = 3 THEN 2 ELSE 1     \* get_cstat reads cgroups and process ids

RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)

\* Offset of block b (b = 1..NBlocks+1, the last meaning the end) of sample i.
BlockAt(f, i, b) == f.s[i].at + f.rec + SumTo(f.s[i].blk, b - 1)
EndOf(f, i)      == BlockAt(f, i, NBlocks(f) + 1)
\* Offset of part b of sample i, and of the end of all samples for i = Len + 1.
PartAt(f, i, b) ==
  IF i = 0 THEN 0
  ELSE IF i > Len(f.s) THEN IF Len(f.s) = 0 THEN f.hdr ELSE EndOf(f, Len(f.s))
  ELSE IF b = 0 THEN f.s[i].at ELSE BlockAt(f, i, b)

EndMark(f, i)  == f.s[i].blk[1] = 0
Complete(f, i) == EndOf(f, i) <= f.avail

\* What reading block b of sample i meets; a block that was not written has nothing wrong.
BlockState(f, i, b) ==
  IF f.s[i].blk[b] = 0 /\ b > 2 THEN IF f.s[i].fault[b] = "short" THEN "short" ELSE "ok"
  ELSE IF BlockAt(f, i, b + 1) > f.avail THEN "cut" ELSE f.s[i].fault[b]
Troubles(f, i) == {BlockState(f, i, b) : b \in 1..NBlocks(f)} \ {"ok"}

\* The part of the log behind sample i-1: "none", "part" (of a record), "mark", "sample".
Next_(f, i) ==
  IF i > Len(f.s) \/ PartAt(f, i, 0) >= f.avail THEN "none"
  ELSE IF f.s[i].at + f.rec > f.avail THEN "part"
  ELSE IF EndMark(f, i) THEN "mark" ELSE "sample"

Intact(f, i) == Next_(f, i) = "sample" /\ Troubles(f, i) = {}

---------------------------------------------------------------------------
\* What one call of an iterator (limit, raise, n delivered before) at sample i may give: a set of
\* results, each "sample", "end" (quiet end), "trunc" (decompression or end-of-file error) or
\* "inconsistent" (any error).  Only where the log is cut inside a record, or the source reports the
\* cut itself, are both endings open when errors are enabled.
Outcomes(f, i, limit, raise, n) ==
  IF n >= limit THEN {"end"}
  ELSE CASE Next_(f, i) = "none" -> IF f.torn /\ raise THEN {"end", "trunc"} ELSE {"end"}
         [] Next_(f, i) = "part" -> IF raise THEN {"end", "trunc"} ELSE {"end"}
         [] Next_(f, i) = "mark" -> {"end"}
         [] Troubles(f, i) = {}  -> {"sample"}
         [] OTHER -> (IF Troubles(f, i) \cap {"cut", "bad"} # {} THEN {IF raise THEN "trunc" ELSE "end"} ELSE {})
                     \cup (IF "short" \in Troubles(f, i) THEN {"inconsistent"} ELSE {})

---------------------------------------------------------------------------

Stream0 == [pos |-> 0, i |-> 0, b |-> 0, lost |-> FALSE]

Init ==
  /\ log  \in [Streams -> Logs]
  /\ st   = [h \in Streams |-> Stream0]
  /\ its  = [h \in Streams |-> <<>>]
  /\ busy = [h \in Streams |-> 0]
  /\ got  = [h \in Streams |-> <<>>]
  /\ res  = [h \in Streams |-> "none"]

Idle(h) == busy[h] = 0 /\ ~st[h].lost
AtSample(h) == st[h].b = 0 /\ st[h].i >= 1

\* The stream stands at part b of sample i.
Stand(h, i, b) == [pos |-> PartAt(log[h], i, b), i |-> i, b |-> b, lost |-> FALSE]

\* get_header on a complete, valid header.
GetHeader(h) ==
  /\ Idle(h) /\ st[h].i = 0
  /\ st'  = [st EXCEPT ![h] = Stand(h, 1, 0)]
  /\ res' = [res EXCEPT ![h] = "header"]
  /\ UNCHANGED <<log, its, busy, got>>

\* get_record where a complete record is.
GetRecord(h) ==
  /\ Idle(h) /\ AtSample(h) /\ Next_(log[h], st[h].i) = "sample"
  /\ st'  = [st EXCEPT ![h] = Stand(h, st[h].i, 1)]
  /\ res' = [res EXCEPT ![h] = "record"]
  /\ UNCHANGED <<log, its, busy, got>>

\* get_sstat, get_tstat and get_cstat: the block (or two) that is next.
\* Troubles of the blocks one call reads.
CallTroubles(f, i, b) == {BlockState(f, i, x) : x \in b..(b + BlocksPerCall(f, b) - 1)} \ {"ok"}

GetBlock(h) ==
  LET f == log[h]  i == st[h].i  b == st[h].b
      after == b + BlocksPerCall(f, b)
      last  == after > NBlocks(f)
  IN  /\ Idle(h) /\ b >= 1
      /\ IF CallTroubles(f, i, b) = {}
         THEN /\ st'  = [st EXCEPT ![h] = IF last THEN Stand(h, i + 1, 0) ELSE Stand(h, i, after)]
              /\ got' = [got EXCEPT ![h] = IF last THEN Append(@, [by |-> 0, i |-> i]) ELSE @]
              /\ res' = [res EXCEPT ![h] = "block"]
         ELSE /\ st'  = [st EXCEPT ![h].lost = TRUE]
              /\ res' = [res EXCEPT ![h] = IF "short" \in CallTroubles(f, i, b) THEN "inconsistent" ELSE "trunc"]
              /\ UNCHANGED got
      /\ UNCHANGED <<log, its, busy>>

\* generate_statistics(...): nothing is read yet.
NewIter(h, limit, raise, hdr) ==
  /\ Idle(h) /\ Len(its[h]) < MaxIters /\ (hdr <=> st[h].i = 0)     \* with the header at hand, or not
  /\ its' = [its EXCEPT ![h] = Append(@, [state |-> "live", limit |-> limit, raise |-> raise, hdr |-> hdr, n |-> 0])]
  /\ res' = [res EXCEPT ![h] = "iter"]
  /\ UNCHANGED <<log, st, busy, got>>

\* next(iterator) begins, where the iterator will find what it expects: the header or a record.
CallNext(h, k) ==
  /\ Idle(h) /\ k \in 1..Len(its[h])
  /\ its[h][k].state = "live" => IF its[h][k].hdr THEN st[h].i = 0 ELSE AtSample(h)
  /\ busy' = [busy EXCEPT ![h] = k]
  /\ res'  = [res EXCEPT ![h] = "none"]
  /\ UNCHANGED <<log, st, its, got>>

\* The current call of stream h ends with result r; the iterator stays alive only after a sample.
Return(h, r) ==
  /\ busy' = [busy EXCEPT ![h] = 0]
  /\ res'  = [res EXCEPT ![h] = r]
  /\ its'  = [its EXCEPT ![h][busy[h]].state = IF r = "sample" THEN "live" ELSE "dead",
                         ![h][busy[h]].n = IF r = "sample" THEN @ + 1 ELSE @]

ReadHeader(h) ==
  /\ busy[h] # 0 /\ its[h][busy[h]].state = "live" /\ its[h][busy[h]].hdr
  /\ st'  = [st EXCEPT ![h] = Stand(h, 1, 0)]
  /\ its' = [its EXCEPT ![h][busy[h]].hdr = FALSE]
  /\ UNCHANGED <<log, busy, got, res>>

\* An iterator that has ended, or has delivered all it may, ends without touching the stream.
EndAtOnce(h) ==
  /\ busy[h] # 0
  /\ LET it == its[h][busy[h]] IN it.state = "dead" \/ (~it.hdr /\ st[h].b = 0 /\ it.n >= it.limit)
  /\ Return(h, "end")
  /\ UNCHANGED <<log, st, got>>

MayRead(h) == busy[h] # 0 /\ LET it == its[h][busy[h]] IN it.state = "live" /\ ~it.hdr /\ (st[h].b = 0 => it.n < it.limit)

ReadRecord(h) ==
  /\ MayRead(h) /\ st[h].b = 0 /\ Next_(log[h], st[h].i) = "sample"
  /\ st' = [st EXCEPT ![h] = Stand(h, st[h].i, 1)]
  /\ UNCHANGED <<log, its, busy, got, res>>

\* No further record, or the end mark.
NaturalEnd(h) ==
  /\ MayRead(h) /\ st[h].b = 0 /\ Next_(log[h], st[h].i) \in {"none", "mark"}
  /\ st' = [st EXCEPT ![h].lost = Next_(log[h], st[h].i) = "mark"]
  /\ \/ Return(h, "end")
     \/ log[h].torn /\ Next_(log[h], st[h].i) = "none" /\ its[h][busy[h]].raise /\ Return(h, "trunc")
  /\ UNCHANGED <<log, got>>

\* A record that was cut.
PartialRecord(h) ==
  /\ MayRead(h) /\ st[h].b = 0 /\ Next_(log[h], st[h].i) = "part"
  /\ st' = [st EXCEPT ![h].lost = TRUE]
  /\ \/ Return(h, "end")
     \/ its[h][busy[h]].raise /\ Return(h, "trunc")
  /\ UNCHANGED <<log, got>>

ReadBlock(h) ==
  /\ MayRead(h) /\ st[h].b >= 1 /\ st[h].b <= NBlocks(log[h]) /\ BlockState(log[h], st[h].i, st[h].b) = "ok"
  /\ st' = [st EXCEPT ![h] = Stand(h, st[h].i, st[h].b + 1)]
  /\ UNCHANGED <<log, its, busy, got, res>>

\* At a block that cannot be read the call fails; where a later block of the sample is wrong in another
\* way, that may be what is noticed.
NoticedAt(h, kinds) ==
  /\ MayRead(h) /\ st[h].b >= 1 /\ st[h].b <= NBlocks(log[h])
  /\ BlockState(log[h], st[h].i, st[h].b) # "ok"
  /\ Troubles(log[h], st[h].i) \cap kinds # {}

\* A block that is cut or does not decompress.
DamagedBlock(h) ==
  /\ NoticedAt(h, {"cut", "bad"})
  /\ st' = [st EXCEPT ![h].lost = TRUE]
  /\ Return(h, IF its[h][busy[h]].raise THEN "trunc" ELSE "end")
  /\ UNCHANGED <<log, got>>

\* A block that holds less than it should.
ShortBlock(h) ==
  /\ NoticedAt(h, {"short"})
  /\ st' = [st EXCEPT ![h].lost = TRUE]
  /\ Return(h, "inconsistent")
  /\ UNCHANGED <<log, got>>

Deliver(h) ==
  /\ MayRead(h) /\ st[h].b = NBlocks(log[h]) + 1
  /\ st'  = [st EXCEPT ![h] = Stand(h, st[h].i + 1, 0)]
  /\ got' = [got EXCEPT ![h] = Append(@, [by |-> busy[h], i |-> st[h].i])]
  /\ Return(h, "sample")
  /\ UNCHANGED log

Inside(h) == \/ ReadHeader(h) \/ EndAtOnce(h) \/ ReadRecord(h) \/ NaturalEnd(h) \/ PartialRecord(h)
             \/ ReadBlock(h) \/ DamagedBlock(h) \/ ShortBlock(h) \/ Deliver(h)

Call(h) == \/ GetHeader(h) \/ GetRecord(h) \/ GetBlock(h)
           \/ \E l \in Limits, r \in BOOLEAN, hd \in BOOLEAN : NewIter(h, l, r, hd)
           \/ \E k \in 1..MaxIters : CallNext(h, k)

Next == \E h \in Streams : Inside(h) \/ Call(h)

\* While a log is still being written, more of it comes to exist at any time (see AtopFollow).
Full(f) == PartAt(f, Len(f.s) + 1, 0)
Grow(h, to) ==
  /\ to > log[h].avail /\ to <= Full(log[h]) /\ ~log[h].torn
  /\ log' = [log EXCEPT ![h].avail = to]
  /\ UNCHANGED <<st, its, busy, got, res>>
\* What a call may give during which the log grows from avail over the lengths in grown.
Growing(f, grown, i, limit, raise, n) ==
  UNION {Outcomes([f EXCEPT !.avail = a], i, limit, raise, n) : a \in grown \cup {f.avail}}

\* A source may fail with an error of its own, at byte bad and behind it (see AtopFault).
Fine == 2000000000
Hit(bad, to) == bad < to        \* reading up to byte to meets the failure
\* What a call of an iterator may give then.  Where something is wrong with the sample in front of that byte, that
\* may be noticed first.
Before(f, i, bad) == \E b \in 1..NBlocks(f) : BlockState(f, i, b) # "ok" /\ BlockAt(f, i, b + 1) <= bad
Failing(f, bad, i, limit, raise, n) ==
  IF n >= limit THEN {"end"}
  ELSE CASE Next_(f, i) \in {"none", "part", "mark"} ->
              IF Hit(bad, PartAt(f, i, 0) + f.rec) THEN {"fault"} ELSE Outcomes(f, i, limit, raise, n)
         [] OTHER ->
              IF ~Hit(bad, EndOf(f, i)) THEN Outcomes(f, i, limit, raise, n)
              ELSE {"fault"} \cup (IF Before(f, i, bad) THEN Outcomes(f, i, limit, raise, n) ELSE {})

\* The caller puts the stream back to where a part starts that could not be read.
Back(h) ==
  /\ busy[h] = 0 /\ st[h].lost
  /\ \E b \in {x \in {0, st[h].b} : x <= NBlocks(log[h])} : st' = [st EXCEPT ![h] = Stand(h, st[h].i, b)]
  /\ UNCHANGED <<log, its, busy, got, res>>

Spec == Init /\ [][Next]_vars /\ \A h \in Streams : WF_vars(Inside(h))

---------------------------------------------------------------------------
\* Properties.

TypeOK ==
  /\ \A h \in Streams : st[h].i \in 0..(Len(log[h].s) + 1) /\ st[h].b \in 0..(NBlocks(log[h]) + 1)
  /\ \A h \in Streams : busy[h] \in 0..Len(its[h])

\* C04, C07, C08: what is handed out is intact and complete; nothing is invented.
OnlyIntact == \A h \in Streams : \A k \in 1..Len(got[h]) : Intact(log[h], got[h][k].i)

\* C04, C09, C10: whoever reads, the samples come in order, none is lost, none repeated.
InOrder == \A h \in Streams : \A k \in 1..Len(got[h]) : got[h][k].i = k

\* C10: the position is that of the next part.
Position == \A h \in Streams : ~st[h].lost => st[h].pos = PartAt(log[h], st[h].i, st[h].b)

\* C09: no iterator exceeds its limit.
Limited == \A h \in Streams : \A k \in 1..Len(its[h]) :
             /\ its[h][k].n <= its[h][k].limit
             /\ its[h][k].n = Cardinality({j \in 1..Len(got[h]) : got[h][j].by = k})

\* C04, C07, C09: a quiet end has a reason: limit, end of log, or (errors disabled) a damaged rest.
QuietEndJustified == \A h \in Streams : \A k \in 1..Len(its[h]) :
   its[h][k].state = "dead" /\ ~its[h][k].hdr /\ res[h] = "end" =>
     \/ its[h][k].n = its[h][k].limit
     \/ ~Intact(log[h], Len(got[h]) + 1)
     \/ st[h].lost

\* C07, C08: with errors enabled the error is only raised in front of something unreadable.
ErrorJustified == \A h \in Streams :
   res[h] \in {"trunc", "inconsistent"} => /\ ~Intact(log[h], st[h].i)
                                           /\ st[h].lost \/ log[h].torn

\* Every call gives what Outcomes allows (the composition that trace validation uses).
CallsMatchOutcomes ==
  [][\A h \in Streams :
       busy[h] # 0 /\ busy'[h] = 0 /\ its[h][busy[h]].state = "live" =>
         res'[h] \in Outcomes(log[h], st[h].i, its[h][busy[h]].limit, its[h][busy[h]].raise, its[h][busy[h]].n)]_vars

\* C11: a step of one reader changes nothing of the others; the logs never change; results stay.
Isolated ==
  [][/\ log' = log
     /\ \A h \in Streams : Len(got'[h]) >= Len(got[h]) /\ SubSeq(got'[h], 1, Len(got[h])) = got[h]
     /\ Cardinality({h \in Streams : <<st[h], its[h], busy[h], got[h], res[h]>> # <<st'[h], its'[h], busy'[h], got'[h], res'[h]>>}) <= 1]_vars

\* C09: every call returns.
Returns == \A h \in Streams : busy[h] # 0 ~> busy[h] = 0

=============================================================================
