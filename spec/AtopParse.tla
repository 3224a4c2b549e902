----------------------------- MODULE AtopParse -----------------------------
(***************************************************************************)
(* Parseable output of 1.26 logs: for each label what a row consists of    *)
(* and which rows there are.                                               *)
(*                                                                         *)
(* A column is [k, f, a, p, q]: name, kind, area, path(s).  Areas:         *)
(* "H" header, "R" record, "S" system statistics, "E" the entry or task    *)
(* the row is about.  Kinds:                                               *)
(*   num   the number                  text  the text, invalid UTF-8 dropped *)
(*   kib   the number times 1024       sum   the sum of two numbers          *)
(*   byte  the byte as a number        flag  "y"/"n": bit q of the number    *)
(*   index number of the row from 0    const the text q                      *)
(***************************************************************************)
EXTENDS AtopLayout

C(k, f, a, p, q) == [k |-> k, f |-> f, a |-> a, p |-> p, q |-> q]
N(k, a, p)       == C(k, "num", a, p, <<>>)
T(k, p)          == C(k, "text", "E", p, <<>>)
K(k, p)          == C(k, "kib", "E", p, <<>>)
Sum(k, p, q)     == C(k, "sum", "S", p, q)

Time == << N("timestamp", "R", <<"curtime">>), N("interval", "R", <<"interval">>) >>
Task == Time \o << N("pid", "E", <<"gen", "pid">>), T("name", <<"gen", "name">>),
                   C("state", "text", "E", <<"gen", "state">>, <<>>) >>

PerCore(a, b) == << N("system", a, Append(b, "stime")), N("user", a, Append(b, "utime")), N("niced", a, Append(b, "ntime")),
                    N("idle", a, Append(b, "itime")), N("wait", a, Append(b, "wtime")), N("irq", a, Append(b, "Itime")),
                    N("softirq", a, Append(b, "Stime")), N("steal", a, Append(b, "steal")), N("guest", a, Append(b, "guest")) >>

Disk == Time \o << T("name", <<"name">>), N("io_ms", "E", <<"io_ms">>), N("reads", "E", <<"nread">>),
                   N("read_sectors", "E", <<"nrsect">>), N("writes", "E", <<"nwrite">>), N("write_sectors", "E", <<"nwsect">>) >>

Columns == [
  cpu |-> Time \o << N("ticks", "H", <<"hertz">>), C("proc", "index", "", <<>>, <<>>) >> \o PerCore("E", <<>>),
  CPL |-> Time \o << N("procs", "S", <<"cpu", "nrcpu">>), N("load_1", "S", <<"cpu", "lavg1">>),
                     N("load_5", "S", <<"cpu", "lavg5">>), N("load_15", "S", <<"cpu", "lavg15">>),
                     N("context_switches", "S", <<"cpu", "csw">>), N("interrupts", "S", <<"cpu", "devint">>) >>,
  CPU |-> Time \o << N("ticks", "H", <<"hertz">>), N("procs", "S", <<"cpu", "nrcpu">>) >> \o PerCore("S", <<"cpu", "all">>),
  DSK |-> Disk,
  LVM |-> Disk,
  MDD |-> Disk,
  MEM |-> Time \o << N("page_size", "H", <<"pagesize">>), N("phys_mem", "S", <<"mem", "physmem">>),
                     N("free_mem", "S", <<"mem", "freemem">>), N("page_cache", "S", <<"mem", "cachemem">>),
                     N("buffer_cache", "S", <<"mem", "buffermem">>), N("slab", "S", <<"mem", "slabmem">>),
                     N("dirty_pages", "S", <<"mem", "cachedrt">>) >>,
  NETL |-> Time \o << T("name", <<"name">>), N("pkt_received", "E", <<"rpack">>), N("byte_received", "E", <<"rbyte">>),
                      N("pkt_transmitted", "E", <<"spack">>), N("bytes_transmitted", "E", <<"sbyte">>),
                      N("speed", "E", <<"speed">>), C("duplex", "byte", "E", <<"duplex">>, <<>>) >>,
  NETU |-> Time \o << C("name", "const", "", <<>>, <<117, 112, 112, 101, 114>>),       \* "upper"
                      N("tcp_pkt_received", "S", <<"net", "tcp", "InSegs">>),
                      N("tcp_pkt_transmitted", "S", <<"net", "tcp", "OutSegs">>),
                      Sum("udp_pkt_received", <<"net", "udpv4", "InDatagrams">>, <<"net", "udpv6", "Udp6InDatagrams">>),
                      Sum("udp_pkt_transmitted", <<"net", "udpv4", "OutDatagrams">>, <<"net", "udpv6", "Udp6OutDatagrams">>),
                      Sum("ip_pkt_received", <<"net", "ipv4", "InReceives">>, <<"net", "ipv6", "Ip6InReceives">>),
                      Sum("ip_pkt_transmitted", <<"net", "ipv4", "OutRequests">>, <<"net", "ipv6", "Ip6OutRequests">>),
                      Sum("ip_pkt_delivered", <<"net", "ipv4", "InDelivers">>, <<"net", "ipv6", "Ip6InDelivers">>),
                      Sum("ip_pkt_forwarded", <<"net", "ipv4", "ForwDatagrams">>, <<"net", "ipv6", "Ip6OutForwDatagrams">>) >>,
  PAG |-> Time \o << N("page_size", "H", <<"pagesize">>), N("page_scans", "S", <<"mem", "pgscans">>),
                     N("alloc_stalls", "S", <<"mem", "allocstall">>), N("swapins", "S", <<"mem", "swins">>),
                     N("swapouts", "S", <<"mem", "swouts">>) >>,
  SWP |-> Time \o << N("page_size", "H", <<"pagesize">>), N("swap", "S", <<"mem", "totswap">>),
                     N("free_swap", "S", <<"mem", "freeswap">>), N("committed_space", "S", <<"mem", "committed">>),
                     N("committed_limit", "S", <<"mem", "commitlim">>) >>,
  PRC |-> Task \o << N("ticks", "H", <<"hertz">>), N("user_consumption", "E", <<"cpu", "utime">>),
                     N("system_consumption", "E", <<"cpu", "stime">>), N("nice", "E", <<"cpu", "nice">>),
                     N("priority", "E", <<"cpu", "prio">>), N("priority_realtime", "E", <<"cpu", "rtprio">>),
                     N("policy", "E", <<"cpu", "policy">>), N("cpu", "E", <<"cpu", "curcpu">>),
                     N("sleep", "E", <<"cpu", "sleepavg">>) >>,
  PRD |-> Task \o << C("kernel_patch", "flag", "H", <<"supportflags">>, 2), C("standard_io", "flag", "H", <<"supportflags">>, 4),
                     N("reads", "E", <<"dsk", "rio">>), N("read_sectors", "E", <<"dsk", "rsz">>),
                     N("writes", "E", <<"dsk", "wio">>), N("written_sectors", "E", <<"dsk", "wsz">>),
                     N("cancelled_sector_writes", "E", <<"dsk", "cwsz">>) >>,
  PRG |-> Task \o << N("real_uid", "E", <<"gen", "ruid">>), N("real_gid", "E", <<"gen", "rgid">>),
                     N("tgid", "E", <<"gen", "pid">>), N("threads", "E", <<"gen", "nthr">>),
                     N("exit_code", "E", <<"gen", "excode">>), N("start_time", "E", <<"gen", "btime">>),
                     T("cmd", <<"gen", "cmdline">>), N("ppid", "E", <<"gen", "ppid">>),
                     N("running_threads", "E", <<"gen", "nthrrun">>), N("sleeping_threads", "E", <<"gen", "nthrslpi">>),
                     N("dead_threads", "E", <<"gen", "nthrslpu">>), N("effective_uid", "E", <<"gen", "euid">>),
                     N("effective_gid", "E", <<"gen", "egid">>), N("saved_uid", "E", <<"gen", "suid">>),
                     N("saved_gid", "E", <<"gen", "sgid">>), N("filesystem_uid", "E", <<"gen", "fsuid">>),
                     N("filesystem_gid", "E", <<"gen", "fsgid">>), N("elapsed_time", "E", <<"gen", "elaps">>) >>,
  PRM |-> Task \o << N("page", "H", <<"pagesize">>), K("vsize", <<"mem", "vmem">>), K("rsize", <<"mem", "rmem">>),
                     K("ssize", <<"mem", "shtext">>), K("vgrowth", <<"mem", "vgrow">>), K("rgrowth", <<"mem", "rgrow">>),
                     N("minor_faults", "E", <<"mem", "minflt">>), N("major_faults", "E", <<"mem", "majflt">>) >>,
  PRN |-> Task \o << C("kernel_patch", "flag", "H", <<"supportflags">>, 2),
                     N("tcp_transmitted", "E", <<"net", "tcpsnd">>), N("tcp_transmitted_size", "E", <<"net", "tcpssz">>),
                     N("tcp_received", "E", <<"net", "tcprcv">>), N("tcp_received_size", "E", <<"net", "tcprsz">>),
                     N("udp_transmitted", "E", <<"net", "udpsnd">>), N("udp_transmitted_size", "E", <<"net", "udpssz">>),
                     N("udp_received", "E", <<"net", "udprcv">>), N("udp_received_size", "E", <<"net", "udprsz">>),
                     N("raw_transmitted", "E", <<"net", "rawsnd">>), N("raw_received", "E", <<"net", "rawrcv">>) >>
]

\* Labels of the system and of the task level, and those the command accepts.
TaskLabels   == {"PRC", "PRD", "PRG", "PRM", "PRN"}
SystemLabels == DOMAIN Columns \ TaskLabels

V == "1.26"
\* The table of a label: path in the system statistics.
Table == [cpu |-> <<"cpu", "cpu">>, DSK |-> <<"dsk", "dsk">>, LVM |-> <<"dsk", "lvm">>, MDD |-> <<"dsk", "mdd">>,
          NETL |-> <<"intf", "intf">>]
OneRow == SystemLabels \ DOMAIN Table

\* Structure and offset of entry x (from 0) of a label's table.
TableField(lab) == LET p == Table[lab] IN Layout[Layout[Fmt[V].sstat].f[p[1]].t].f[p[2]]
TableAt(lab) == LET p == Table[lab] IN Layout[Fmt[V].sstat].f[p[1]].off + TableField(lab).off
EntryAt(lab, x) == TableAt(lab) + x * TableField(lab).es

NameAt(lab) == TableAt(lab) + Layout[TableField(lab).t].f["name"].off

\* The first entry whose name (size es apart, the first at off, cap of them) is empty; cap if none is.
FirstUnnamed(ss, off, es, cap) ==
  IF \E x \in 0..(cap - 1) : ByteAt(ss, off + x * es) = 0
  THEN CHOOSE x \in 0..(cap - 1) : ByteAt(ss, off + x * es) = 0
                                 /\ \A y \in 0..(x - 1) : ByteAt(ss, off + y * es) # 0
  ELSE cap

\* Number of rows, given the system statistics and the number of tasks.
Rows(lab, ss, tasks) ==
  IF lab \in TaskLabels THEN tasks
  ELSE IF lab \in OneRow THEN 1
  ELSE IF lab = "cpu" THEN Clip(NumOfPath(ss, Fmt[V].sstat, <<"cpu", "nrcpu">>), 0, TableField(lab).c)
  ELSE CHOOSE n \in {FirstUnnamed(t[1], t[2], t[3], t[4]) : t \in {<<ss, NameAt(lab), TableField(lab).es, TableField(lab).c>>}} : TRUE

\* [s, c, off] of an area for row x (from 0) of a sample given as its contents.
Area(lab, a, hdr, rec, ss, ts, x) ==
  CASE a = "H" -> [s |-> Fmt[V].header, c |-> hdr, off |-> 0]
    [] a = "R" -> [s |-> Fmt[V].record, c |-> rec, off |-> 0]
    [] a = "S" -> [s |-> Fmt[V].sstat, c |-> ss, off |-> 0]
    [] a = "E" /\ lab \in TaskLabels -> [s |-> Fmt[V].tstat, c |-> ts, off |-> x * SizeOf(Fmt[V].tstat)]
    [] a = "E" /\ lab \notin TaskLabels -> [s |-> TableField(lab).t, c |-> ss, off |-> EntryAt(lab, x)]

NumIn(r, p) == LET a == At(r.s, p) IN NumAt(r.c, r.off + a.off, a.t)

\* Is bit (2 or 4) set in a number?
Bit(n, bit) == LET low == IF n.sg = 0 THEN Digit(n.m, 1) ELSE (256 - Digit(n.m, 1)) % 256 IN (low \div bit) % 2 = 1

\* The value v of column col in row x.
IsColumn(v, col, lab, hdr, rec, ss, ts, x) ==
  LET r == Area(lab, col.a, hdr, rec, ss, ts, x)
  IN  CASE col.f = "num"   -> LET a == At(r.s, col.p) IN IsScalar(v, r.c, r.off + a.off, a.t)
        [] col.f = "kib"   -> SameNum(v, NumMul(NumIn(r, col.p), 1024))
        [] col.f = "sum"   -> SameNum(v, NumAdd(NumIn(r, col.p), NumIn(r, col.q)))
        [] col.f = "byte"  -> SameNum(v, NumAt(r.c, r.off + At(r.s, col.p).off, "u8"))
        [] col.f = "index" -> SameNum(v, NumOf(x))
        [] col.f = "const" -> v.x = "s" /\ v.b = col.q
        [] col.f = "flag"  -> v.x = "s" /\ v.b = IF Bit(NumIn(r, col.p), col.q) THEN <<121>> ELSE <<110>>
        [] col.f = "text"  -> LET a == At(r.s, col.p)
                                  b == Bytes(r.c, r.off + a.off, a.c)
                              IN  v.x = "s" /\ v.b = Utf8Text(IF a.k = "str" THEN CText(b) ELSE b)

\* What is wrong with row j (a logged dictionary without its tag) as row x of label lab: a set of columns.
RowFaults(j, lab, hdr, rec, ss, ts, x) ==
  LET cols == Columns[lab]
      want == {cols[k].k : k \in 1..Len(cols)}
  IN  (IF DOMAIN j # want THEN {<<"columns", DOMAIN j \ want, want \ DOMAIN j>>} ELSE {})
      \cup {<<lab, x, cols[k].k>> : k \in {m \in 1..Len(cols) : cols[m].k \in DOMAIN j
                                            /\ ~IsColumn(j[cols[m].k], cols[m], lab, hdr, rec, ss, ts, x)}}

=============================================================================
