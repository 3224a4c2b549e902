----------------------------- MODULE TraceAtop -----------------------------
(***************************************************************************)
(* Trace validation: is what was recorded from the real code a behaviour   *)
(* of AtopReader over the described logs, with the values that AtopLayout, *)
(* AtopDict, AtopParse and AtopCgroups give?                               *)
(*                                                                         *)
(* LOGS holds the described logs (AtopLog), TRACES one trace per line:     *)
(*   [id, str, ev]  str: the streams, each [log, avail, torn];             *)
(*                  avail < 0 means the complete log                       *)
(* An event that the specification does not allow is reported with the     *)
(* clause it breaks, the rest of its trace is skipped and validation goes  *)
(* on with the next trace; the report also counts what was consumed.       *)
(***************************************************************************)
EXTENDS AtopReader, AtopLog, AtopDict, AtopParse, AtopCommand, AtopHold, AtopChaos, AtopWorld, Json, IOUtils

VARIABLES
  k, l,       \* current trace and event
  cli,        \* the command that is running: [files, names, labels, ts, cs, at]
  drained     \* samples read so far from a log of copies

Raw    == ndJsonDeserialize(IOEnv.LOGS)
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* The logs, as described and as AtopReader sees them: found once (Prepare) and then looked up.
\* (TLC caches constants by itself, but not those that use recursive operators.)
Prepare == /\ TLCSet(5, TLCEval([n \in 1..Len(Raw) |-> Seen(Raw[n])]))
           /\ TLCSet(6, TLCEval([n \in 1..Len(Raw) |-> ReaderLog(TLCGet(5)[n])]))
Desc  == TLCGet(5)
RLogs == TLCGet(6)

tvars == <<log, st, its, busy, got, res, k, l, cli, drained>>

NoLog == [hdr |-> HeaderLen, rec |-> 0, cg |-> FALSE, avail |-> 0, torn |-> FALSE, s |-> <<>>]
NoCli == [files |-> <<>>, names |-> <<>>, labels |-> <<>>, ts |-> FALSE, cs |-> FALSE, hit |-> <<>>, at |-> 0]

TraceLog(t, h) ==
  IF t > Len(Traces) \/ h > Len(Traces[t].str) THEN NoLog
  ELSE LET x == Traces[t].str[h]
       IN  [RLogs[x.log] EXCEPT !.avail = IF x.avail < 0 THEN @ ELSE x.avail, !.torn = x.torn]

D(h) == Desc[Traces[k].str[h].log]
Ev   == Traces[k].ev[l]

TraceInit ==
  /\ Prepare
  /\ TLCSet(1, <<>>) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, <<1, 1>>)
  /\ k = 1 /\ l = 1 /\ cli = NoCli /\ drained = 0
  /\ log  = [h \in Streams |-> TraceLog(1, h)]
  /\ st   = [h \in Streams |-> Stream0]
  /\ its  = [h \in Streams |-> <<>>]
  /\ busy = [h \in Streams |-> 0]
  /\ got  = [h \in Streams |-> <<>>]
  /\ res  = [h \in Streams |-> "none"]

\* On to the next trace; after many violations there is no need to look for more.
Enough    == Cardinality({n \in 1..Len(TLCGet(1)) : TLCGet(1)[n].kind = "violation"}) >= 40
NextTrace ==
  /\ k' = (IF Enough THEN Len(Traces) + 1 ELSE k + 1) /\ l' = 1 /\ cli' = NoCli /\ drained' = 0
  /\ log'  = [h \in Streams |-> TraceLog(k + 1, h)]
  /\ st'   = [h \in Streams |-> Stream0]
  /\ its'  = [h \in Streams |-> <<>>]
  /\ busy' = [h \in Streams |-> 0]
  /\ got'  = [h \in Streams |-> <<>>]
  /\ res'  = [h \in Streams |-> "none"]

---------------------------------------------------------------------------
\* Payload checks: sets of faults, each <<clause, details...>>.

Check(ok, clause) == IF ok THEN {} ELSE {<<clause>>}

IdFaults(h, i, e) ==
  LET w == Samp(D(h), i).id
  IN  Check(e.rec = w.rec, "record") \cup Check(e.ss = w.ss, "system statistics")
      \cup Check(Len(e.ts) = TaskCount(D(h), i), "number of tasks") \cup Check(e.ts = w.ts, "tasks")
      \cup Check(Len(e.cg) = CgCount(D(h), i), "number of cgroups") \cup Check(e.cg = w.cg, "cgroups")

PosFaults(h, i, b, e) == Check(e.pos < 0 \/ e.pos = PartAt(log[h], i, b), "position")

AttrFaults(h, i, p, x, vals) ==
  LET a == PartOf(D(h), i, p, x)
  IN  {<<"value", p, vals[n][1]>> : n \in {m \in 1..Len(vals) : ~IsAttr(vals[m][2], a.c, a.off, a.s, vals[m][1])}}

PidFaults(h, i, x, v) ==
  LET w == PidList(D(h), i, x)
  IN  Check(Len(v) = Len(w), "number of process ids")
      \cup Check(Len(v) # Len(w) \/ \A n \in 1..Len(w) : SameNum(v[n], w[n]), "process ids")

DictPart(h, i, p, x, j) == UNION {DictFaults(a.s, a.c, a.off, j, <<p>>) : a \in {PartOf(D(h), i, p, x)}}

CgDictFaults(h, i, x, j) ==
  IF j.x # "d" \/ DOMAIN j.d # {"cstat", "proclist"} THEN {<<"cgroup keys">>}
  ELSE DictPart(h, i, "cg", x, j.d.cstat)
       \cup (IF j.d.proclist.x # "l" THEN {<<"process ids">>} ELSE PidFaults(h, i, x, j.d.proclist.v))

RowsFaults(h, i, lab, rows) ==
  LET s == Samp(D(h), i)
      n == Rows(lab, s.ss, TaskCount(D(h), i))
  IN  IF Len(rows) # n THEN {<<"number of rows", lab, Len(rows), n>>}
      ELSE UNION {IF rows[x].x # "d" THEN {<<"row", x>>}
                  ELSE RowFaults(rows[x].d, lab, D(h).hdr, s.rec, s.ss, s.ts, x - 1) : x \in 1..n}

---------------------------------------------------------------------------
\* Results of calls.

IsError(o)  == o \notin {"ok", "sample", "end", "hang"}
IsTrunc(o)  == o \in {"zlib.error", "EOFError"}

\* The result of AtopReader that a logged result stands for, given what is allowed; "" if none.
Result(o, allowed) ==
  CASE o \in {"sample", "end", "fault"} /\ o \in allowed -> o
    [] IsTrunc(o) /\ "trunc" \in allowed -> "trunc"
    [] IsError(o) /\ o # "fault" /\ "inconsistent" \in allowed -> "inconsistent"
    [] OTHER -> ""

HeaderDecisions(h, chk) == Decisions(D(h).hdr, log[h].avail, chk)

\* A header that must be refused, or may be and was, ends the trace of its stream.
HeaderFaults(h, e, chk) ==
  LET dec == HeaderDecisions(h, chk)
  IN  IF e.out = "ok"
      THEN Check("accept" \in dec, "header must be refused")
           \cup Check(e.sem = Semantic(D(h).hdr) /\ e.major = Major(D(h).hdr) /\ e.minor = Minor(D(h).hdr), "version")
           \cup Check(e.sup = FormatOf(D(h).hdr), "structures of the version")
           \cup Check(e.pos < 0 \/ e.pos = HeaderLen, "position")
           \cup AttrFaults(h, 1, "hdr", 0, e.vals)
      ELSE Check("reject" \in dec, "header must be accepted") \cup Check(e.out = "ValueError", "type of error")

\* A source that fails at byte bad during the call, a source that did fail or a reader that was interrupted (stop): the
\* very error must have reached the caller ("fault").
BadAt(e)   == IF "bad" \in DOMAIN e THEN e.bad ELSE Fine
Stopped(e) == IF "stop" \in DOMAIN e THEN e.stop ELSE FALSE
DirectEnd(h) == LET f == log[h]  i == st[h].i  b == st[h].b IN
                IF i = 0 THEN f.hdr ELSE IF b = 0 THEN PartAt(f, i, 0) + f.rec ELSE BlockAt(f, i, b + BlocksPerCall(f, b))
Struck(h, e) == Stopped(e) \/ Hit(BadAt(e), DirectEnd(h))
StruckFaults(e) == Check(e.out = "fault", <<"the error of the source, or the interruption, is passed on", e.out>>)

BlockFaults(h, e) ==
  LET i == st[h].i  b == st[h].b  w == Samp(D(h), i).id
      tr == CallTroubles(log[h], i, b)
  IN  IF tr # {} THEN Check(IsError(e.out) /\ ("short" \in tr \/ IsTrunc(e.out)), "error expected")
      ELSE IF e.out # "ok" THEN {<<"no error expected", e.out>>}
      ELSE PosFaults(h, IF b + BlocksPerCall(log[h], b) > NBlocks(log[h]) THEN i + 1 ELSE i,
                        IF b + BlocksPerCall(log[h], b) > NBlocks(log[h]) THEN 0 ELSE b + BlocksPerCall(log[h], b), e)
           \cup (CASE e.a = "sstat" -> Check(e.ss = w.ss, "system statistics")
                   [] e.a = "tstat" -> Check(Len(e.ts) = TaskCount(D(h), i), "number of tasks") \cup Check(e.ts = w.ts, "tasks")
                   [] e.a = "cstat" -> Check(Len(e.cg) = CgCount(D(h), i), "number of cgroups") \cup Check(e.cg = w.cg, "cgroups"))

It(h, e) == its[h][e.k]
\* The lengths the log had during the call, if it grew.
Grown(e)  == IF "grew" \in DOMAIN e THEN e.grew ELSE <<>>
Allowed(h, e) ==
  IF Stopped(e) THEN {"fault"}
  ELSE IF It(h, e).state = "dead" THEN {"end"}
  ELSE IF BadAt(e) # Fine
  THEN IF It(h, e).hdr /\ Hit(BadAt(e), log[h].hdr) THEN {"fault"}
       ELSE Failing(log[h], BadAt(e), IF It(h, e).hdr THEN 1 ELSE st[h].i, It(h, e).limit, It(h, e).raise, It(h, e).n)
  ELSE IF Grown(e) # <<>>
  THEN Growing(log[h], Range(Grown(e)), IF It(h, e).hdr THEN 1 ELSE st[h].i, It(h, e).limit, It(h, e).raise, It(h, e).n)
  ELSE Outcomes(log[h], IF It(h, e).hdr THEN 1 ELSE st[h].i, It(h, e).limit, It(h, e).raise, It(h, e).n)

\* Over bytes of which nothing is known, calls end in one of the known ways, and samples are as few as they have to be.
Strict(e) == "strict" \in DOMAIN e
StrictFaults(h, e) ==
  IF ~Strict(e) THEN {}
  ELSE IF e.a # "next" THEN Check(e.out \in PartEnds, "type of error")
  ELSE Check(e.out \in {"sample"} \cup Ends(It(h, e).raise), "type of error")
       \cup Check(e.out # "sample" \/ Len(got[h]) < MostSamples(log[h].avail - HeaderLen, log[h].rec), "more samples than there can be")

MustRefuse(h, e) == ~Stopped(e) /\ BadAt(e) = Fine /\ It(h, e).state = "live" /\ It(h, e).hdr /\ HeaderDecisions(h, TRUE) = {"reject"}

NextFaults(h, e) ==
  IF MustRefuse(h, e) THEN Check(e.out = "ValueError", "header must be refused")
  ELSE LET i == IF It(h, e).hdr THEN 1 ELSE st[h].i
           r == Result(e.out, Allowed(h, e))
       IN  IF r = "" THEN {<<"result", e.out, Allowed(h, e)>>}
           ELSE IF r = "sample" THEN IdFaults(h, i, e) \cup PosFaults(h, i + 1, 0, e)
           ELSE IF r = "end" /\ ~It(h, e).hdr /\ ~st[h].lost
                   /\ (It(h, e).state = "dead" \/ It(h, e).n >= It(h, e).limit)
                THEN Check(e.pos < 0 \/ e.pos = st[h].pos, "position")
           ELSE {}

\* Reading a log of copies to its end or limit in one go.
DrainFaults(h, e) ==
  LET d == D(h)
      x    == Traces[k].str[h].avail
      len  == FrameLen(d, 1)
      all  == IF x < 0 THEN d.rep ELSE (x - HeaderLen) \div len
      left == all - drained
      n    == IF e.limit < left THEN e.limit ELSE left
  IN  Check(e.count = n, "number of samples") \cup Check(e.same, "samples")
      \cup Check(e.out = "end", "end")
      \cup Check(e.pos < 0 \/ e.limit > left \/ e.pos = HeaderLen + (drained + n) * len, "position")

---------------------------------------------------------------------------
\* The command.

RECURSIVE IntactFrom(_, _)
IntactFrom(f, i) == IF "sample" \in Outcomes(f, i, 86400, FALSE, 0) THEN 1 + IntactFrom(f, i + 1) ELSE 0
Readable(h) == IF D(h).rep > 0 THEN NumSamples(D(h)) ELSE IntactFrom(log[h], 1)

\* What a file of the command may be (see AtopCommand.Fails); 0 is one that cannot be opened as a log at all.
LIMIT == 86400
AfterReadable(h) == Outcomes(log[h], Readable(h) + 1, LIMIT, FALSE, 0)
Kinds(h) ==
  IF h = 0 THEN {"none"}
  ELSE UNION {(IF "reject" \in dec THEN {"none"} ELSE {})
              \cup (IF "accept" \notin dec THEN {}
                    ELSE IF D(h).rep > 0 THEN {"log"}
                    ELSE {IF o = "inconsistent" THEN "odd" ELSE "log" : o \in AfterReadable(h)})
              : dec \in {HeaderDecisions(h, TRUE)}}
VerOf(h)    == IF h = 0 THEN "" ELSE D(h).ver
\* The n-th file; one during the reading of which the source failed is as good as none.
KindsAt(n)  == IF n \in Range(cli.hit) THEN {"none"} ELSE Kinds(cli.files[n])
MayFail(n)  == \E kind \in KindsAt(n) : Fails(kind, VerOf(cli.files[n]), cli.labels)
MustFail(n) == \A kind \in KindsAt(n) : Fails(kind, VerOf(cli.files[n]), cli.labels)
\* Whether each of the first n files must be read.
AllReadable(n) == \A m \in 1..n : ~MayFail(m)

Includes(b, part) == \E i \in 1..(Len(b) - Len(part) + 1) : SubSeq(b, i, i + Len(part) - 1) = part

Wanted(h, labels) ==
  Expected(D(h).ver, Readable(h), labels, LAMBDA i, lab : Rows(lab, Samp(D(h), i).ss, TaskCount(D(h), i)))

Tagged(j, lab) == j.x = "d" /\ "parseable" \in DOMAIN j.d /\ j.d.parseable.x = "t" /\ j.d.parseable.v = lab

CliRowFaults(h, w, j) ==
  IF ~Tagged(j, w.lab) THEN {<<"tag", w>>}
  ELSE LET s == Samp(D(h), w.i)
       IN  RowFaults([c \in DOMAIN j.d \ {"parseable"} |-> j.d[c]], w.lab, D(h).hdr, s.rec, s.ss, s.ts, w.x - 1)

EntryKeys == EntryKeysFor(cli.ts, cli.cs)

ListFaults(j, n, clause) == Check(j.x = "l" /\ Len(j.v) = n, clause)

EntryFaults(h, i, j) ==
  IF j.x # "d" \/ DOMAIN j.d # EntryKeys THEN {<<"entry keys", i>>}
  ELSE DictPart(h, i, "hdr", 0, j.d.header) \cup DictPart(h, i, "rec", 0, j.d.record) \cup DictPart(h, i, "ss", 0, j.d.sstat)
       \cup (IF ~cli.ts THEN {} ELSE LET n == TaskCount(D(h), i) q == j.d.tstat IN
               IF ListFaults(q, n, "x") # {} THEN {<<"number of tasks", i>>}
               ELSE UNION {DictPart(h, i, "ts", x, q.v[x]) : x \in 1..n})
       \cup (IF ~cli.cs THEN {} ELSE LET n == CgCount(D(h), i) q == j.d.cgroup IN
               IF ListFaults(q, n, "x") # {} THEN {<<"number of cgroups", i>>}
               ELSE UNION {CgDictFaults(h, i, x, q.v[x]) : x \in 1..n})

\* An entry that should report that a version has no parseable output.
ErrorFaults(j, e) ==
  IF j.x # "d" \/ ~({"error", "file"} \subseteq DOMAIN j.d) THEN {<<"error entry">>}
  ELSE Check(j.d.file.x = "s" /\ j.d.file.b = cli.names[cli.at + 1], "file of error entry")
       \cup Check(j.d.error.x = "s" /\ Includes(j.d.error.b, e.verbytes), "version in error entry")

PrintFaults(e) ==
  IF cli.at >= Len(cli.files) THEN {<<"one array per file">>}
  ELSE IF ~AllReadable(cli.at + 1) THEN {}
  ELSE LET h == cli.files[cli.at + 1]
       IN  UNION {IF Len(w) # Len(e.out) THEN {<<"number of entries", Len(e.out), Len(w)>>}
                  ELSE UNION {CASE w[n].k = "error"  -> ErrorFaults(e.out[n], e)
                                [] w[n].k = "sample" -> EntryFaults(h, w[n].i, e.out[n])
                                [] w[n].k = "row"    -> CliRowFaults(h, w[n], e.out[n]) : n \in 1..Len(w)} : w \in {Wanted(h, cli.labels)}}

\* The array for a long log of repetitions, of which only the length and some entries were kept.
LongFaults(e) ==
  IF cli.at >= Len(cli.files) THEN {<<"one array per file">>}
  ELSE IF ~AllReadable(cli.at + 1) THEN {}
  ELSE LET h == cli.files[cli.at + 1]
           d == D(h)
           nrows(i, lab) == Rows(lab, Samp(d, i).ss, TaskCount(d, i))
       IN  UNION {UNION {
             IF e.total # len THEN {<<"number of entries", e.total, len>>}
             ELSE UNION {UNION {CASE w.k = "error"  -> ErrorFaults(e.at[n][2], e)
                                  [] w.k = "sample" -> EntryFaults(h, w.i, e.at[n][2])
                                  [] w.k = "row"    -> CliRowFaults(h, w, e.at[n][2]) : w \in {EntryOfRound(once, e.at[n][1])}} :
                         n \in 1..Len(e.at)} :
             once \in {Expected(d.ver, Len(d.s), cli.labels, nrows)}} :
             len \in {ExpectedLength(d.ver, Readable(h), Len(d.s), cli.labels, nrows)}}

\* Runs of one command; the first was in ordinary surroundings.
RunsFaults(e) ==
  UNION {IF e.runs[n].room < 0 THEN Check(SameRun(e.runs[n], e.runs[1]), <<"the output depends on", e.runs[n].how>>)
         ELSE Check(NoRoom(e.runs[n], e.runs[1].n), <<"success without room for the output", e.runs[n].how>>) : n \in 1..Len(e.runs)}

LabelsExist == Accepts(cli.labels)

ExitFaults(e) ==
  IF LabelsExist /\ ~AllReadable(Len(cli.files))
  THEN LET must == {n \in 1..Len(cli.files) : MustFail(n)}
           may  == {n \in 1..Len(cli.files) : MayFail(n)}
       IN  Check(must = {} \/ e.status # 0, "exit status of a command that could not read a file")
           \cup Check(\E n \in may : cli.at >= n - 1, "arrays of the files before one that cannot be read")
           \cup Check(cli.at + Cardinality(must) <= Len(cli.files), "no array for a file that cannot be read")
           \cup Check(e.rest = 0, "nothing but arrays on standard output")
  ELSE IF LabelsExist
  THEN Check(e.status = 0, "exit status") \cup Check(e.rest = 0, "nothing but arrays on standard output")
       \cup Check(cli.at = Len(cli.files), "one array per file")
  ELSE Check(e.status # 0, "unknown label must be refused") \cup Check(cli.at = 0, "no output for a refused command")

---------------------------------------------------------------------------

\* Which samples of a stream still exist as objects; the caller keeps e.kept.
HoldFaults(h, e) ==
  UNION {Check(Released(al, ke), "objects of dropped samples are kept") \cup Check(\A n \in al : n < st[h].i, "a sample nobody asked for")
         : al \in {Range(e.alive)}, ke \in {Range(e.kept)}}
  \cup Check(Flat(e.grown, e.most, e.own), "memory grows with the samples read")

Faults(e) ==
  LET h == e.h
  IN  StrictFaults(h, e) \cup
      CASE e.a \in {"header", "record", "sstat", "tstat", "cstat"} /\ Struck(h, e) -> StruckFaults(e)
        [] e.a \in {"stopped"} -> StruckFaults(e)
        [] e.a = "back" -> {}
        [] e.a = "header" -> HeaderFaults(h, e, e.chk)
        [] e.a = "record" -> IF e.out # "ok" THEN {<<"no error expected", e.out>>}
                             ELSE Check(e.rec = Samp(D(h), st[h].i).id.rec, "record") \cup PosFaults(h, st[h].i, 1, e)
        [] e.a \in {"sstat", "tstat", "cstat"} -> BlockFaults(h, e)
        [] e.a = "iter"  -> {}
        [] e.a = "next"  -> NextFaults(h, e)
        [] e.a = "grow"  -> {}
        [] e.a = "held"  -> IdFaults(h, e.i, e)
        [] e.a = "attrs" -> AttrFaults(h, e.i, e.p, e.x, e.vals)
        [] e.a = "pids"  -> PidFaults(h, e.i, e.x, e.v)
        [] e.a = "dict"  -> IF e.p = "cg" THEN CgDictFaults(h, e.i, e.x, e.j) ELSE DictPart(h, e.i, e.p, e.x, e.j)
        [] e.a = "inner" -> UNION {UNION {DictFaults(w.t, a.c, a.off + w.off, e.j, <<e.p>> \o e.path) : w \in {At(a.s, e.path)}} : a \in {PartOf(D(h), e.i, e.p, e.x)}}
        [] e.a = "rows"  -> IF e.out # "ok" THEN {<<"no error expected", e.lab, e.out>>} ELSE RowsFaults(h, e.i, e.lab, e.rows)
        [] e.a = "drain" -> DrainFaults(h, e)
        [] e.a = "cli"   -> {}
        [] e.a = "print" -> PrintFaults(e)
        [] e.a = "printn" -> LongFaults(e)
        [] e.a = "exit"  -> ExitFaults(e)
        [] e.a = "runs"  -> RunsFaults(e)
        [] e.a = "hold"  -> HoldFaults(h, e)
        [] e.a = "files" -> Check(e.more <= 0, "files left open")
        [] e.a = "world" -> {<<"changed by", e.call, a>> : a \in Changed(e.call, e.before, e.after)}
        [] e.a = "must"  -> Check(e.ok, e.what)

\* Is the event one that the driver may log in this state?  (Else the driver is at fault, not the code.)
Legal(e) ==
  LET h == e.h
  IN  CASE e.a = "header" -> Idle(h) /\ st[h].i = 0
        [] e.a = "record" -> Idle(h) /\ AtSample(h) /\ Next_(log[h], st[h].i) = "sample"
        [] e.a = "sstat"  -> Idle(h) /\ st[h].b = 1
        [] e.a = "tstat"  -> Idle(h) /\ st[h].b = 2
        [] e.a = "cstat"  -> Idle(h) /\ st[h].b = 3 /\ log[h].cg
        [] e.a = "iter"   -> Idle(h) \/ st[h].lost
        [] e.a = "back"   -> busy[h] = 0 /\ st[h].lost /\ IF e.i = st[h].i THEN e.b \in {0, st[h].b} ELSE st[h].i = 0 /\ e.i = 1 /\ e.b = 0
        [] e.a = "grow"   -> busy[h] = 0 /\ e.to > log[h].avail /\ e.to <= Full(log[h])
        [] e.a = "next"   -> /\ busy[h] = 0 /\ e.k \in 1..Len(its[h])
                             /\ It(h, e).state = "live" => ~st[h].lost /\ IF It(h, e).hdr THEN st[h].i = 0 ELSE AtSample(h)
        [] OTHER -> TRUE

Note(kind, e, faults) ==
  \E f \in {[id |-> Traces[k].id, event |-> l, a |-> e.a, kind |-> kind, faults |-> ToString(faults)]} :
    TLCSet(1, Append(TLCGet(1), f)) /\ (Len(TLCGet(1)) < 4 => PrintT("FAILED " \o ToJson(f)))
Count == TLCSet(2, TLCGet(2) + 1)

\* The transition of the reader for an event that is allowed.
Act(e) ==
  LET h == e.h
  IN  CASE e.a \in {"header", "record", "sstat", "tstat", "cstat"} /\ Struck(h, e) ->
             st' = [st EXCEPT ![h].lost = TRUE] /\ res' = [res EXCEPT ![h] = "fault"] /\ UNCHANGED <<log, its, busy, got>>
        [] e.a = "back" -> st' = [st EXCEPT ![h] = Stand(h, e.i, e.b)] /\ UNCHANGED <<log, its, busy, got, res>>
        [] e.a = "header" -> IF e.out = "ok" /\ "accept" \in HeaderDecisions(h, e.chk) THEN GetHeader(h)
                             ELSE st' = [st EXCEPT ![h].lost = TRUE] /\ UNCHANGED <<log, its, busy, got, res>>
        [] e.a = "record" -> GetRecord(h)
        [] e.a \in {"sstat", "tstat", "cstat"} -> GetBlock(h)
        [] e.a = "iter" -> /\ its' = [its EXCEPT ![h] = Append(@, [state |-> "live", limit |-> e.limit, raise |-> e.raise,
                                                                 hdr |-> e.hdr, n |-> 0])]
                           /\ UNCHANGED <<log, st, busy, got, res>>
        [] e.a = "grow" -> Grow(h, e.to)
        [] OTHER -> UNCHANGED vars

Live == k <= Len(Traces) /\ l <= Len(Traces[k].ev)
NoneBusy == \A h \in Streams : busy[h] = 0

\* An event other than an iterator call.
Consume(e) ==
  /\ Count
  /\ Act(e)
  /\ cli' = CASE e.a = "cli"   -> [files |-> e.files, names |-> e.names, labels |-> e.labels, ts |-> e.ts, cs |-> e.cs,
                                   hit |-> IF "hit" \in DOMAIN e THEN e.hit ELSE <<>>, at |-> 0]
              [] e.a \in {"print", "printn"} -> [cli EXCEPT !.at = @ + 1]
              [] OTHER -> cli
  /\ drained' = IF e.a = "drain" THEN drained + e.count ELSE drained
  /\ l' = l + 1 /\ UNCHANGED k

\* An iterator call: it begins, takes AtopReader's steps (WithinNext), and returns what was logged.
BeginNext(e) ==
  /\ IF It(e.h, e).state = "dead"
     THEN l' = l + 1 /\ Count /\ UNCHANGED vars      \* an ended iterator has no steps left to take
     ELSE CallNext(e.h, e.k) /\ UNCHANGED l
  /\ UNCHANGED <<k, cli, drained>>

\* One that has to read a header and must refuse it.
RefusedNext(e) ==
  /\ Count
  /\ st'  = [st EXCEPT ![e.h].lost = TRUE]
  /\ its' = [its EXCEPT ![e.h][e.k].state = "dead"]
  /\ l' = l + 1 /\ UNCHANGED <<log, busy, got, res, k, cli, drained>>

\* One during which the log grew, in one step (AtopFollow shows that this sums its steps up).
GrowingNext(e) ==
  LET h == e.h
      i == IF It(h, e).hdr THEN 1 ELSE st[h].i
      sample == e.out = "sample"
  IN  /\ Count
      /\ log' = [log EXCEPT ![h].avail = Grown(e)[Len(Grown(e))]]
      /\ st'  = [st EXCEPT ![h] = IF sample THEN Stand(h, i + 1, 0) ELSE [Stand(h, i, 0) EXCEPT !.lost = e.pos # PartAt(log[h], i, 0)]]
      /\ its' = [its EXCEPT ![h][e.k].state = IF sample THEN "live" ELSE "dead", ![h][e.k].hdr = FALSE, ![h][e.k].n = IF sample THEN @ + 1 ELSE @]
      /\ got' = [got EXCEPT ![h] = IF sample THEN Append(@, [by |-> e.k, i |-> i]) ELSE @]
      /\ res' = [res EXCEPT ![h] = e.out]
      /\ l' = l + 1 /\ UNCHANGED <<busy, k, cli, drained>>

\* One that failed with the error of its source, or was interrupted.
FaultyNext(e) ==
  LET h == e.h
  IN  /\ Count
      /\ st'  = [st EXCEPT ![h].lost = TRUE]
      /\ its' = [its EXCEPT ![h][e.k].state = "dead"]
      /\ res' = [res EXCEPT ![h] = "fault"]
      /\ l' = l + 1 /\ UNCHANGED <<log, busy, got, k, cli, drained>>

\* The next event.  (Sets of one element have TLC evaluate event and faults once.)
Event ==
  /\ Live /\ NoneBusy
  /\ \E e \in {Ev} :
       IF ~Legal(e) THEN Note("illegal", e, {}) /\ NextTrace
       ELSE \E f \in {Faults(e)} :
              IF f # {} THEN Note("violation", e, f) /\ NextTrace
              ELSE IF e.a # "next" THEN Consume(e)
              ELSE IF e.out = "fault" THEN FaultyNext(e)
              ELSE IF Grown(e) # <<>> /\ It(e.h, e).state = "live" THEN GrowingNext(e)
              ELSE IF MustRefuse(e.h, e) THEN RefusedNext(e) ELSE BeginNext(e)

WithinNext ==
  /\ Live /\ ~NoneBusy
  /\ LET h == Ev.h
     IN  /\ Inside(h)
         /\ busy'[h] = 0 => /\ res'[h] = Result(Ev.out, Outcomes(log[h], st[h].i, It(h, Ev).limit, It(h, Ev).raise, It(h, Ev).n))
                            /\ Count
         /\ l' = IF busy'[h] = 0 THEN l + 1 ELSE l
  /\ UNCHANGED <<k, cli, drained>>

Finished == /\ k <= Len(Traces) /\ l > Len(Traces[k].ev) /\ NoneBusy /\ TLCSet(3, TLCGet(3) + 1) /\ NextTrace

TraceNext == TLCSet(4, <<k, l>>) /\ (Event \/ WithinNext \/ Finished)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* All traces were gone through; the report says what failed.
Complete_ ==
  JsonSerialize(IOEnv.REPORT, [fails |-> TLCGet(1), events |-> TLCGet(2), accepted |-> TLCGet(3), enough |-> Enough, traces |-> Len(Traces), at |-> TLCGet(4)])

=============================================================================
