---------------------------- MODULE AtopSchema ----------------------------
(***************************************************************************)
(* The raw log formats of the supported Atop versions, as data.            *)
(*                                                                         *)
(* One entry of StructDefs per distinct C structure (the suffix names the  *)
(* first version that has it in this form); Formats binds each version to  *)
(* its five raw structures.  Nothing here says where a field is: offsets,  *)
(* sizes and alignment are derived in AtopLayout by the C layout rules.    *)
(*                                                                         *)
(*   F(name, type)            scalar or nested structure                   *)
(*   A(name, type, n)         array of n elements, always complete         *)
(*   L(name, type, n, count)  array of n elements of which only the first  *)
(*                            "count" (a sibling field) are in use         *)
(* Types: chr (text when it is an array), u8 i16 u16 i32 u32 i64 u64 f32,  *)
(* or the name of another structure.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

F(n, t)       == [n |-> n, t |-> t, k |-> "one", c |-> 1, lim |-> ""]
A(n, t, c)    == [n |-> n, t |-> t, k |-> IF t = "chr" THEN "str" ELSE "arr", c |-> c, lim |-> ""]
L(n, t, c, l) == [n |-> n, t |-> t, k |-> "arr", c |-> c, lim |-> l]

\* Release order.
VersionSeq == <<"1.26", "2.3", "2.4", "2.5", "2.6", "2.7", "2.8", "2.9", "2.10", "2.11", "2.12">>
Versions   == {VersionSeq[i] : i \in 1..Len(VersionSeq)}


StructDefs == [
  UTSName |-> <<
        A("sysname", "chr", 65),
        A("nodename", "chr", 65),
        A("release", "chr", 65),
        A("version", "chr", 65),
        A("machine", "chr", 65),
        A("domain", "chr", 65) >>,
  Header_1_26 |-> <<
        F("magic", "u32"),
        F("aversion", "u16"),
        F("future1", "u16"),
        F("future2", "u16"),
        F("rawheadlen", "u16"),
        F("rawreclen", "u16"),
        F("hertz", "u16"),
        A("sfuture", "u16", 6),
        F("sstatlen", "u32"),
        F("pstatlen", "u32"),
        F("utsname", "UTSName"),
        A("cfuture", "chr", 8),
        F("pagesize", "u32"),
        F("supportflags", "i32"),
        F("osrel", "i32"),
        F("osvers", "i32"),
        F("ossub", "i32"),
        A("ifuture", "i32", 6) >>,
  Record_1_26 |-> <<
        F("curtime", "i64"),
        F("flags", "u16"),
        A("sfuture", "u16", 3),
        F("scomplen", "u32"),
        F("pcomplen", "u32"),
        F("interval", "u32"),
        F("nlist", "u32"),
        F("npresent", "u32"),
        F("nexit", "u32"),
        F("ntrun", "u32"),
        F("ntslpi", "u32"),
        F("ntslpu", "u32"),
        F("nzombie", "u32"),
        A("ifuture", "u32", 6) >>,
  FreqCnt_1_26 |-> <<
        F("maxfreq", "i64"),
        F("cnt", "i64"),
        F("ticks", "i64") >>,
  PerCPU_1_26 |-> <<
        F("cpunr", "i32"),
        F("stime", "i64"),
        F("utime", "i64"),
        F("ntime", "i64"),
        F("itime", "i64"),
        F("wtime", "i64"),
        F("Itime", "i64"),
        F("Stime", "i64"),
        F("steal", "i64"),
        F("guest", "i64"),
        F("freqcnt", "FreqCnt_1_26"),
        A("cfuture", "i64", 1) >>,
  CPUStat_1_26 |-> <<
        F("nrcpu", "i64"),
        F("devint", "i64"),
        F("csw", "i64"),
        F("nprocs", "i64"),
        F("lavg1", "f32"),
        F("lavg5", "f32"),
        F("lavg15", "f32"),
        A("cfuture", "i64", 4),
        F("all", "PerCPU_1_26"),
        L("cpu", "PerCPU_1_26", 64, "nrcpu") >>,
  MemStat_1_26 |-> <<
        F("physmem", "i64"),
        F("freemem", "i64"),
        F("buffermem", "i64"),
        F("slabmem", "i64"),
        F("cachemem", "i64"),
        F("cachedrt", "i64"),
        F("totswap", "i64"),
        F("freeswap", "i64"),
        F("pgscans", "i64"),
        F("allocstall", "i64"),
        F("swouts", "i64"),
        F("swins", "i64"),
        F("commitlim", "i64"),
        F("committed", "i64"),
        A("cfuture", "i64", 4) >>,
  IPv4Stats_1_26 |-> <<
        F("Forwarding", "i64"),
        F("DefaultTTL", "i64"),
        F("InReceives", "i64"),
        F("InHdrErrors", "i64"),
        F("InAddrErrors", "i64"),
        F("ForwDatagrams", "i64"),
        F("InUnknownProtos", "i64"),
        F("InDiscards", "i64"),
        F("InDelivers", "i64"),
        F("OutRequests", "i64"),
        F("OutDiscards", "i64"),
        F("OutNoRoutes", "i64"),
        F("ReasmTimeout", "i64"),
        F("ReasmReqds", "i64"),
        F("ReasmOKs", "i64"),
        F("ReasmFails", "i64"),
        F("FragOKs", "i64"),
        F("FragFails", "i64"),
        F("FragCreates", "i64") >>,
  ICMPv4Stats_1_26 |-> <<
        F("InMsgs", "i64"),
        F("InErrors", "i64"),
        F("InDestUnreachs", "i64"),
        F("InTimeExcds", "i64"),
        F("InParmProbs", "i64"),
        F("InSrcQuenchs", "i64"),
        F("InRedirects", "i64"),
        F("InEchos", "i64"),
        F("InEchoReps", "i64"),
        F("InTimestamps", "i64"),
        F("InTimestampReps", "i64"),
        F("InAddrMasks", "i64"),
        F("InAddrMaskReps", "i64"),
        F("OutMsgs", "i64"),
        F("OutErrors", "i64"),
        F("OutDestUnreachs", "i64"),
        F("OutTimeExcds", "i64"),
        F("OutParmProbs", "i64"),
        F("OutSrcQuenchs", "i64"),
        F("OutRedirects", "i64"),
        F("OutEchos", "i64"),
        F("OutEchoReps", "i64"),
        F("OutTimestamps", "i64"),
        F("OutTimestampReps", "i64"),
        F("OutAddrMasks", "i64"),
        F("OutAddrMaskReps", "i64") >>,
  UDPv4Stats_1_26 |-> <<
        F("InDatagrams", "i64"),
        F("NoPorts", "i64"),
        F("InErrors", "i64"),
        F("OutDatagrams", "i64") >>,
  IPv6Stats_1_26 |-> <<
        F("Ip6InReceives", "i64"),
        F("Ip6InHdrErrors", "i64"),
        F("Ip6InTooBigErrors", "i64"),
        F("Ip6InNoRoutes", "i64"),
        F("Ip6InAddrErrors", "i64"),
        F("Ip6InUnknownProtos", "i64"),
        F("Ip6InTruncatedPkts", "i64"),
        F("Ip6InDiscards", "i64"),
        F("Ip6InDelivers", "i64"),
        F("Ip6OutForwDatagrams", "i64"),
        F("Ip6OutRequests", "i64"),
        F("Ip6OutDiscards", "i64"),
        F("Ip6OutNoRoutes", "i64"),
        F("Ip6ReasmTimeout", "i64"),
        F("Ip6ReasmReqds", "i64"),
        F("Ip6ReasmOKs", "i64"),
        F("Ip6ReasmFails", "i64"),
        F("Ip6FragOKs", "i64"),
        F("Ip6FragFails", "i64"),
        F("Ip6FragCreates", "i64"),
        F("Ip6InMcastPkts", "i64"),
        F("Ip6OutMcastPkts", "i64") >>,
  ICMPv6Stats_1_26 |-> <<
        F("Icmp6InMsgs", "i64"),
        F("Icmp6InErrors", "i64"),
        F("Icmp6InDestUnreachs", "i64"),
        F("Icmp6InPktTooBigs", "i64"),
        F("Icmp6InTimeExcds", "i64"),
        F("Icmp6InParmProblems", "i64"),
        F("Icmp6InEchos", "i64"),
        F("Icmp6InEchoReplies", "i64"),
        F("Icmp6InGroupMembQueries", "i64"),
        F("Icmp6InGroupMembResponses", "i64"),
        F("Icmp6InGroupMembReductions", "i64"),
        F("Icmp6InRouterSolicits", "i64"),
        F("Icmp6InRouterAdvertisements", "i64"),
        F("Icmp6InNeighborSolicits", "i64"),
        F("Icmp6InNeighborAdvertisements", "i64"),
        F("Icmp6InRedirects", "i64"),
        F("Icmp6OutMsgs", "i64"),
        F("Icmp6OutDestUnreachs", "i64"),
        F("Icmp6OutPktTooBigs", "i64"),
        F("Icmp6OutTimeExcds", "i64"),
        F("Icmp6OutParmProblems", "i64"),
        F("Icmp6OutEchoReplies", "i64"),
        F("Icmp6OutRouterSolicits", "i64"),
        F("Icmp6OutNeighborSolicits", "i64"),
        F("Icmp6OutNeighborAdvertisements", "i64"),
        F("Icmp6OutRedirects", "i64"),
        F("Icmp6OutGroupMembResponses", "i64"),
        F("Icmp6OutGroupMembReductions", "i64") >>,
  UDPv6Stats_1_26 |-> <<
        F("Udp6InDatagrams", "i64"),
        F("Udp6NoPorts", "i64"),
        F("Udp6InErrors", "i64"),
        F("Udp6OutDatagrams", "i64") >>,
  TCPStats_1_26 |-> <<
        F("RtoAlgorithm", "i64"),
        F("RtoMin", "i64"),
        F("RtoMax", "i64"),
        F("MaxConn", "i64"),
        F("ActiveOpens", "i64"),
        F("PassiveOpens", "i64"),
        F("AttemptFails", "i64"),
        F("EstabResets", "i64"),
        F("CurrEstab", "i64"),
        F("InSegs", "i64"),
        F("OutSegs", "i64"),
        F("RetransSegs", "i64"),
        F("InErrs", "i64"),
        F("OutRsts", "i64") >>,
  NETStat_1_26 |-> <<
        F("ipv4", "IPv4Stats_1_26"),
        F("icmpv4", "ICMPv4Stats_1_26"),
        F("udpv4", "UDPv4Stats_1_26"),
        F("ipv6", "IPv6Stats_1_26"),
        F("icmpv6", "ICMPv6Stats_1_26"),
        F("udpv6", "UDPv6Stats_1_26"),
        F("tcp", "TCPStats_1_26") >>,
  PerIntf_1_26 |-> <<
        A("name", "chr", 16),
        F("rbyte", "i64"),
        F("rpack", "i64"),
        F("rerrs", "i64"),
        F("rdrop", "i64"),
        F("rfifo", "i64"),
        F("rframe", "i64"),
        F("rcompr", "i64"),
        F("rmultic", "i64"),
        A("rfuture", "i64", 4),
        F("sbyte", "i64"),
        F("spack", "i64"),
        F("serrs", "i64"),
        F("sdrop", "i64"),
        F("sfifo", "i64"),
        F("scollis", "i64"),
        F("scarrier", "i64"),
        F("scompr", "i64"),
        A("sfuture", "i64", 4),
        F("speed", "i64"),
        F("duplex", "chr"),
        A("cfuture", "i64", 4) >>,
  IntfStat_1_26 |-> <<
        F("nrintf", "i32"),
        L("intf", "PerIntf_1_26", 32, "nrintf") >>,
  PerDSK_1_26 |-> <<
        A("name", "chr", 32),
        F("nread", "i64"),
        F("nrsect", "i64"),
        F("nwrite", "i64"),
        F("nwsect", "i64"),
        F("io_ms", "i64"),
        F("avque", "i64"),
        A("cfuture", "i64", 4) >>,
  DSKStat_1_26 |-> <<
        F("ndsk", "i32"),
        F("nmdd", "i32"),
        F("nlvm", "i32"),
        L("dsk", "PerDSK_1_26", 256, "ndsk"),
        L("mdd", "PerDSK_1_26", 128, "nmdd"),
        L("lvm", "PerDSK_1_26", 256, "nlvm") >>,
  WWWStat_1_26 |-> <<
        F("accesses", "i64"),
        F("totkbytes", "i64"),
        F("uptime", "i64"),
        F("bworkers", "i32"),
        F("iworkers", "i32") >>,
  SStat_1_26 |-> <<
        F("cpu", "CPUStat_1_26"),
        F("mem", "MemStat_1_26"),
        F("net", "NETStat_1_26"),
        F("intf", "IntfStat_1_26"),
        F("dsk", "DSKStat_1_26"),
        F("www", "WWWStat_1_26") >>,
  GEN_1_26 |-> <<
        F("pid", "i32"),
        F("ppid", "i32"),
        F("ruid", "i32"),
        F("euid", "i32"),
        F("suid", "i32"),
        F("fsuid", "i32"),
        F("rgid", "i32"),
        F("egid", "i32"),
        F("sgid", "i32"),
        F("fsgid", "i32"),
        F("nthr", "i32"),
        A("name", "chr", 16),
        F("state", "chr"),
        F("excode", "i32"),
        F("btime", "i64"),
        F("elaps", "i64"),
        A("cmdline", "chr", 151),
        F("nthrslpi", "i32"),
        F("nthrslpu", "i32"),
        F("nthrrun", "i32"),
        A("ifuture", "i32", 1) >>,
  CPU_1_26 |-> <<
        F("utime", "i64"),
        F("stime", "i64"),
        F("nice", "i32"),
        F("prio", "i32"),
        F("rtprio", "i32"),
        F("policy", "i32"),
        F("curcpu", "i32"),
        F("sleepavg", "i32"),
        A("ifuture", "i32", 4),
        A("cfuture", "i64", 4) >>,
  DSK_1_26 |-> <<
        F("rio", "i64"),
        F("rsz", "i64"),
        F("wio", "i64"),
        F("wsz", "i64"),
        F("cwsz", "i64"),
        A("cfuture", "i64", 4) >>,
  MEM_1_26 |-> <<
        F("minflt", "i64"),
        F("majflt", "i64"),
        F("shtext", "i64"),
        F("vmem", "i64"),
        F("rmem", "i64"),
        F("vgrow", "i64"),
        F("rgrow", "i64"),
        A("cfuture", "i64", 4) >>,
  NET_1_26 |-> <<
        F("tcpsnd", "i64"),
        F("tcpssz", "i64"),
        F("tcprcv", "i64"),
        F("tcprsz", "i64"),
        F("udpsnd", "i64"),
        F("udpssz", "i64"),
        F("udprcv", "i64"),
        F("udprsz", "i64"),
        F("rawsnd", "i64"),
        F("rawrcv", "i64"),
        A("cfuture", "i64", 4) >>,
  PStat_1_26 |-> <<
        F("gen", "GEN_1_26"),
        F("cpu", "CPU_1_26"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_1_26"),
        F("net", "NET_1_26") >>,
  Header_2_3 |-> <<
        F("magic", "u32"),
        F("aversion", "u16"),
        F("future1", "u16"),
        F("future2", "u16"),
        F("rawheadlen", "u16"),
        F("rawreclen", "u16"),
        F("hertz", "u16"),
        A("sfuture", "u16", 6),
        F("sstatlen", "u32"),
        F("tstatlen", "u32"),
        F("utsname", "UTSName"),
        A("cfuture", "chr", 8),
        F("pagesize", "u32"),
        F("supportflags", "i32"),
        F("osrel", "i32"),
        F("osvers", "i32"),
        F("ossub", "i32"),
        A("ifuture", "i32", 6) >>,
  Record_2_3 |-> <<
        F("curtime", "i64"),
        F("flags", "u16"),
        A("sfuture", "u16", 3),
        F("scomplen", "u32"),
        F("pcomplen", "u32"),
        F("interval", "u32"),
        F("ndeviat", "u32"),
        F("nactproc", "u32"),
        F("ntask", "u32"),
        F("totproc", "u32"),
        F("totrun", "u32"),
        F("totslpi", "u32"),
        F("totslpu", "u32"),
        F("totzomb", "u32"),
        F("nexit", "u32"),
        F("noverflow", "u32"),
        A("ifuture", "u32", 6) >>,
  PerCPU_2_3 |-> <<
        F("cpunr", "i32"),
        F("stime", "i64"),
        F("utime", "i64"),
        F("ntime", "i64"),
        F("itime", "i64"),
        F("wtime", "i64"),
        F("Itime", "i64"),
        F("Stime", "i64"),
        F("steal", "i64"),
        F("guest", "i64"),
        F("freqcnt", "FreqCnt_1_26"),
        A("cfuture", "i64", 4) >>,
  CPUStat_2_3 |-> <<
        F("nrcpu", "i64"),
        F("devint", "i64"),
        F("csw", "i64"),
        F("nprocs", "i64"),
        F("lavg1", "f32"),
        F("lavg5", "f32"),
        F("lavg15", "f32"),
        A("cfuture", "i64", 4),
        F("all", "PerCPU_2_3"),
        L("cpu", "PerCPU_2_3", 2048, "nrcpu") >>,
  MemStat_2_3 |-> <<
        F("physmem", "i64"),
        F("freemem", "i64"),
        F("buffermem", "i64"),
        F("slabmem", "i64"),
        F("cachemem", "i64"),
        F("cachedrt", "i64"),
        F("totswap", "i64"),
        F("freeswap", "i64"),
        F("pgscans", "i64"),
        F("pgsteal", "i64"),
        F("allocstall", "i64"),
        F("swouts", "i64"),
        F("swins", "i64"),
        F("commitlim", "i64"),
        F("committed", "i64"),
        F("shmem", "i64"),
        F("shmrss", "i64"),
        F("shmswp", "i64"),
        F("slabreclaim", "i64"),
        F("tothugepage", "i64"),
        F("freehugepage", "i64"),
        F("hugepagesz", "i64"),
        F("vmwballoon", "i64"),
        A("cfuture", "i64", 8) >>,
  PerIntf_2_3 |-> <<
        A("name", "chr", 16),
        F("rbyte", "i64"),
        F("rpack", "i64"),
        F("rerrs", "i64"),
        F("rdrop", "i64"),
        F("rfifo", "i64"),
        F("rframe", "i64"),
        F("rcompr", "i64"),
        F("rmultic", "i64"),
        A("rfuture", "i64", 4),
        F("sbyte", "i64"),
        F("spack", "i64"),
        F("serrs", "i64"),
        F("sdrop", "i64"),
        F("sfifo", "i64"),
        F("scollis", "i64"),
        F("scarrier", "i64"),
        F("scompr", "i64"),
        A("sfuture", "i64", 4),
        F("type", "chr"),
        F("speed", "i64"),
        F("speedp", "i64"),
        F("duplex", "chr"),
        A("cfuture", "i64", 4) >>,
  IntfStat_2_3 |-> <<
        F("nrintf", "i32"),
        L("intf", "PerIntf_2_3", 128, "nrintf") >>,
  DSKStat_2_3 |-> <<
        F("ndsk", "i32"),
        F("nmdd", "i32"),
        F("nlvm", "i32"),
        L("dsk", "PerDSK_1_26", 1024, "ndsk"),
        L("mdd", "PerDSK_1_26", 256, "nmdd"),
        L("lvm", "PerDSK_1_26", 2048, "nlvm") >>,
  Server_2_3 |-> <<
        F("netcnt", "i64"),
        F("netudpcnt", "i64"),
        F("nettcpcnt", "i64"),
        F("nettcpcon", "i64"),
        F("rpccnt", "i64"),
        F("rpcbadfmt", "i64"),
        F("rpcbadaut", "i64"),
        F("rpcbadcln", "i64"),
        F("rpcread", "i64"),
        F("rpcwrite", "i64"),
        F("rchits", "i64"),
        F("rcmiss", "i64"),
        F("rcnoca", "i64"),
        F("nrbytes", "i64"),
        F("nwbytes", "i64"),
        A("future", "i64", 8) >>,
  Client_2_3 |-> <<
        F("rpccnt", "i64"),
        F("rpcretrans", "i64"),
        F("rpcautrefresh", "i64"),
        F("rpcread", "i64"),
        F("rpcwrite", "i64"),
        A("future", "i64", 8) >>,
  PerNFSMount_2_3 |-> <<
        A("mountdev", "chr", 128),
        F("age", "i64"),
        F("bytesread", "i64"),
        F("byteswrite", "i64"),
        F("bytesdread", "i64"),
        F("bytesdwrite", "i64"),
        F("bytestotread", "i64"),
        F("bytestotwrite", "i64"),
        F("pagesmread", "i64"),
        F("pagesmwrite", "i64"),
        A("future", "i64", 8) >>,
  NFSMounts_2_3 |-> <<
        F("nrmounts", "i32"),
        L("nfsmnt", "PerNFSMount_2_3", 64, "nrmounts") >>,
  NFSStat_2_3 |-> <<
        F("server", "Server_2_3"),
        F("client", "Client_2_3"),
        F("nfsmounts", "NFSMounts_2_3") >>,
  PerContainer_2_3 |-> <<
        F("ctid", "u64"),
        F("numproc", "u64"),
        F("system", "i64"),
        F("user", "i64"),
        F("nice", "i64"),
        F("uptime", "i64"),
        F("physpages", "i64") >>,
  ContStat_2_3 |-> <<
        F("nrcontainer", "i32"),
        L("cont", "PerContainer_2_3", 128, "nrcontainer") >>,
  SStat_2_3 |-> <<
        F("cpu", "CPUStat_2_3"),
        F("mem", "MemStat_2_3"),
        F("net", "NETStat_1_26"),
        F("intf", "IntfStat_2_3"),
        F("dsk", "DSKStat_2_3"),
        F("nfs", "NFSStat_2_3"),
        F("cfs", "ContStat_2_3"),
        F("www", "WWWStat_1_26") >>,
  GEN_2_3 |-> <<
        F("tgid", "i32"),
        F("pid", "i32"),
        F("ppid", "i32"),
        F("ruid", "i32"),
        F("euid", "i32"),
        F("suid", "i32"),
        F("fsuid", "i32"),
        F("rgid", "i32"),
        F("egid", "i32"),
        F("sgid", "i32"),
        F("fsgid", "i32"),
        F("nthr", "i32"),
        A("name", "chr", 16),
        F("isproc", "chr"),
        F("state", "chr"),
        F("excode", "i32"),
        F("btime", "i64"),
        F("elaps", "i64"),
        A("cmdline", "chr", 256),
        F("nthrslpi", "i32"),
        F("nthrslpu", "i32"),
        F("nthrrun", "i32"),
        F("ctid", "i32"),
        F("vpid", "i32"),
        F("wasinactive", "i32"),
        A("container", "chr", 16) >>,
  MEM_2_3 |-> <<
        F("minflt", "i64"),
        F("majflt", "i64"),
        F("vexec", "i64"),
        F("vmem", "i64"),
        F("rmem", "i64"),
        F("pmem", "i64"),
        F("vgrow", "i64"),
        F("rgrow", "i64"),
        F("vdata", "i64"),
        F("vstack", "i64"),
        F("vlibs", "i64"),
        F("vswap", "i64"),
        A("cfuture", "i64", 4) >>,
  NET_2_3 |-> <<
        F("tcpsnd", "i64"),
        F("tcpssz", "i64"),
        F("tcprcv", "i64"),
        F("tcprsz", "i64"),
        F("udpsnd", "i64"),
        F("udpssz", "i64"),
        F("udprcv", "i64"),
        F("udprsz", "i64"),
        F("avail1", "i64"),
        F("avail2", "i64"),
        A("cfuture", "i64", 4) >>,
  TStat_2_3 |-> <<
        F("gen", "GEN_2_3"),
        F("cpu", "CPU_1_26"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_2_3"),
        F("net", "NET_2_3") >>,
  PerCPU_2_4 |-> <<
        F("cpunr", "i32"),
        F("stime", "i64"),
        F("utime", "i64"),
        F("ntime", "i64"),
        F("itime", "i64"),
        F("wtime", "i64"),
        F("Itime", "i64"),
        F("Stime", "i64"),
        F("steal", "i64"),
        F("guest", "i64"),
        F("freqcnt", "FreqCnt_1_26"),
        F("instr", "i64"),
        F("cycle", "i64"),
        A("cfuture", "i64", 2) >>,
  CPUStat_2_4 |-> <<
        F("nrcpu", "i64"),
        F("devint", "i64"),
        F("csw", "i64"),
        F("nprocs", "i64"),
        F("lavg1", "f32"),
        F("lavg5", "f32"),
        F("lavg15", "f32"),
        A("cfuture", "i64", 4),
        F("all", "PerCPU_2_4"),
        L("cpu", "PerCPU_2_4", 2048, "nrcpu") >>,
  PSI_2_4 |-> <<
        F("avg10", "f32"),
        F("avg60", "f32"),
        F("avg300", "f32"),
        F("total", "i64") >>,
  Pressure_2_4 |-> <<
        F("present", "chr"),
        A("future", "chr", 3),
        F("cpusome", "PSI_2_4"),
        F("memsome", "PSI_2_4"),
        F("memfull", "PSI_2_4"),
        F("iosome", "PSI_2_4"),
        F("iofull", "PSI_2_4") >>,
  PerGPU_2_4 |-> <<
        F("taskstats", "chr"),
        F("nrprocs", "u8"),
        A("type", "chr", 13),
        A("busid", "chr", 13),
        F("gpunr", "i32"),
        F("gpupercnow", "i32"),
        F("mempercnow", "i32"),
        F("memtotnow", "i64"),
        F("memusenow", "i64"),
        F("samples", "i64"),
        F("gpuperccum", "i64"),
        F("memperccum", "i64"),
        F("memusecum", "i64") >>,
  GPUStat_2_4 |-> <<
        F("nrgpus", "i32"),
        L("gpu", "PerGPU_2_4", 32, "nrgpus") >>,
  PerIFB_2_4 |-> <<
        A("ibname", "chr", 12),
        F("portnr", "i16"),
        F("lanes", "i16"),
        F("rate", "i64"),
        F("rcvb", "i64"),
        F("sndb", "i64"),
        F("rcvp", "i64"),
        F("sndp", "i64") >>,
  IFBStat_2_4 |-> <<
        F("nrports", "i32"),
        L("ifb", "PerIFB_2_4", 32, "nrports") >>,
  SStat_2_4 |-> <<
        F("cpu", "CPUStat_2_4"),
        F("mem", "MemStat_2_3"),
        F("net", "NETStat_1_26"),
        F("intf", "IntfStat_2_3"),
        F("dsk", "DSKStat_2_3"),
        F("nfs", "NFSStat_2_3"),
        F("cfs", "ContStat_2_3"),
        F("psi", "Pressure_2_4"),
        F("gpu", "GPUStat_2_4"),
        F("ifb", "IFBStat_2_4"),
        F("www", "WWWStat_1_26") >>,
  GPU_2_4 |-> <<
        F("state", "chr"),
        A("cfuture", "chr", 3),
        F("nrgpus", "i16"),
        F("gpulist", "i32"),
        F("gpubusy", "i32"),
        F("membusy", "i32"),
        F("timems", "i64"),
        F("memnow", "i64"),
        F("memcum", "i64"),
        F("sample", "i64") >>,
  TStat_2_4 |-> <<
        F("gen", "GEN_2_3"),
        F("cpu", "CPU_1_26"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_2_3"),
        F("net", "NET_2_3"),
        F("gpu", "GPU_2_4") >>,
  MemStat_2_6 |-> <<
        F("physmem", "i64"),
        F("freemem", "i64"),
        F("buffermem", "i64"),
        F("slabmem", "i64"),
        F("cachemem", "i64"),
        F("cachedrt", "i64"),
        F("totswap", "i64"),
        F("freeswap", "i64"),
        F("pgscans", "i64"),
        F("pgsteal", "i64"),
        F("allocstall", "i64"),
        F("swouts", "i64"),
        F("swins", "i64"),
        F("commitlim", "i64"),
        F("committed", "i64"),
        F("shmem", "i64"),
        F("shmrss", "i64"),
        F("shmswp", "i64"),
        F("slabreclaim", "i64"),
        F("tothugepage", "i64"),
        F("freehugepage", "i64"),
        F("hugepagesz", "i64"),
        F("vmwballoon", "i64"),
        F("zfsarcsize", "i64"),
        F("swapcached", "i64"),
        A("cfuture", "i64", 6) >>,
  SStat_2_6 |-> <<
        F("cpu", "CPUStat_2_4"),
        F("mem", "MemStat_2_6"),
        F("net", "NETStat_1_26"),
        F("intf", "IntfStat_2_3"),
        F("dsk", "DSKStat_2_3"),
        F("nfs", "NFSStat_2_3"),
        F("cfs", "ContStat_2_3"),
        F("psi", "Pressure_2_4"),
        F("gpu", "GPUStat_2_4"),
        F("ifb", "IFBStat_2_4"),
        F("www", "WWWStat_1_26") >>,
  CPU_2_6 |-> <<
        F("utime", "i64"),
        F("stime", "i64"),
        F("nice", "i32"),
        F("prio", "i32"),
        F("rtprio", "i32"),
        F("policy", "i32"),
        F("curcpu", "i32"),
        F("sleepavg", "i32"),
        A("ifuture", "i32", 4),
        A("wchan", "chr", 16),
        F("rundelay", "i64"),
        F("cfuture", "i64") >>,
  MEM_2_6 |-> <<
        F("minflt", "i64"),
        F("majflt", "i64"),
        F("vexec", "i64"),
        F("vmem", "i64"),
        F("rmem", "i64"),
        F("pmem", "i64"),
        F("vgrow", "i64"),
        F("rgrow", "i64"),
        F("vdata", "i64"),
        F("vstack", "i64"),
        F("vlibs", "i64"),
        F("vswap", "i64"),
        F("vlock", "i64"),
        A("cfuture", "i64", 3) >>,
  TStat_2_6 |-> <<
        F("gen", "GEN_2_3"),
        F("cpu", "CPU_2_6"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_2_6"),
        F("net", "NET_2_3"),
        F("gpu", "GPU_2_4") >>,
  PerCPU_2_7 |-> <<
        F("cpunr", "i32"),
        F("stime", "i64"),
        F("utime", "i64"),
        F("ntime", "i64"),
        F("itime", "i64"),
        F("wtime", "i64"),
        F("Itime", "i64"),
        F("Stime", "i64"),
        F("steal", "i64"),
        F("guest", "i64"),
        F("freqcnt", "FreqCnt_1_26"),
        F("instr", "i64"),
        F("cycle", "i64"),
        A("cfuture", "i64", 6) >>,
  CPUStat_2_7 |-> <<
        F("nrcpu", "i64"),
        F("devint", "i64"),
        F("csw", "i64"),
        F("nprocs", "i64"),
        F("lavg1", "f32"),
        F("lavg5", "f32"),
        F("lavg15", "f32"),
        A("cfuture", "i64", 4),
        F("all", "PerCPU_2_7"),
        L("cpu", "PerCPU_2_7", 2048, "nrcpu") >>,
  MemStat_2_7 |-> <<
        F("physmem", "i64"),
        F("freemem", "i64"),
        F("buffermem", "i64"),
        F("slabmem", "i64"),
        F("cachemem", "i64"),
        F("cachedrt", "i64"),
        F("totswap", "i64"),
        F("freeswap", "i64"),
        F("pgscans", "i64"),
        F("pgsteal", "i64"),
        F("allocstall", "i64"),
        F("swouts", "i64"),
        F("swins", "i64"),
        F("commitlim", "i64"),
        F("committed", "i64"),
        F("shmem", "i64"),
        F("shmrss", "i64"),
        F("shmswp", "i64"),
        F("slabreclaim", "i64"),
        F("tothugepage", "i64"),
        F("freehugepage", "i64"),
        F("hugepagesz", "i64"),
        F("vmwballoon", "i64"),
        F("zfsarcsize", "i64"),
        F("swapcached", "i64"),
        F("ksmsharing", "i64"),
        F("ksmshared", "i64"),
        F("zswstored", "i64"),
        F("zswtotpool", "i64"),
        F("oomkills", "i64"),
        F("compactstall", "i64"),
        F("pgmigrate", "i64"),
        F("numamigrate", "i64"),
        A("cfuture", "i64", 9) >>,
  MemPerNUMA_2_7 |-> <<
        F("frag", "f32"),
        F("totmem", "i64"),
        F("freemem", "i64"),
        F("filepage", "i64"),
        F("dirtymem", "i64"),
        F("slabmem", "i64"),
        F("slabreclaim", "i64"),
        F("active", "i64"),
        F("inactive", "i64"),
        F("shmem", "i64"),
        F("tothp", "i64") >>,
  MemNUMA_2_7 |-> <<
        F("nrnuma", "i64"),
        L("numa", "MemPerNUMA_2_7", 1024, "nrnuma") >>,
  CPUPerNUMA_2_7 |-> <<
        F("nrcpu", "i64"),
        F("stime", "i64"),
        F("utime", "i64"),
        F("ntime", "i64"),
        F("itime", "i64"),
        F("wtime", "i64"),
        F("Itime", "i64"),
        F("Stime", "i64"),
        F("steal", "i64"),
        F("guest", "i64") >>,
  CPUNUMA_2_7 |-> <<
        F("nrnuma", "i64"),
        L("numa", "CPUPerNUMA_2_7", 1024, "nrnuma") >>,
  PerDSK_2_7 |-> <<
        A("name", "chr", 32),
        F("nread", "i64"),
        F("nrsect", "i64"),
        F("nwrite", "i64"),
        F("nwsect", "i64"),
        F("io_ms", "i64"),
        F("avque", "i64"),
        F("ndisc", "i64"),
        F("ndsect", "i64"),
        A("cfuture", "i64", 2) >>,
  DSKStat_2_7 |-> <<
        F("ndsk", "i32"),
        F("nmdd", "i32"),
        F("nlvm", "i32"),
        L("dsk", "PerDSK_2_7", 1024, "ndsk"),
        L("mdd", "PerDSK_2_7", 256, "nmdd"),
        L("lvm", "PerDSK_2_7", 2048, "nlvm") >>,
  SStat_2_7 |-> <<
        F("cpu", "CPUStat_2_7"),
        F("mem", "MemStat_2_7"),
        F("net", "NETStat_1_26"),
        F("intf", "IntfStat_2_3"),
        F("memnuma", "MemNUMA_2_7"),
        F("cpunuma", "CPUNUMA_2_7"),
        F("dsk", "DSKStat_2_7"),
        F("nfs", "NFSStat_2_3"),
        F("cfs", "ContStat_2_3"),
        F("psi", "Pressure_2_4"),
        F("gpu", "GPUStat_2_4"),
        F("ifb", "IFBStat_2_4"),
        F("www", "WWWStat_1_26") >>,
  Header_2_8 |-> <<
        F("magic", "u32"),
        F("aversion", "u16"),
        F("future1", "u16"),
        F("future2", "u16"),
        F("rawheadlen", "u16"),
        F("rawreclen", "u16"),
        F("hertz", "u16"),
        F("pidwidth", "u16"),
        A("sfuture", "u16", 5),
        F("sstatlen", "u32"),
        F("tstatlen", "u32"),
        F("utsname", "UTSName"),
        A("cfuture", "chr", 8),
        F("pagesize", "u32"),
        F("supportflags", "i32"),
        F("osrel", "i32"),
        F("osvers", "i32"),
        F("ossub", "i32"),
        A("ifuture", "i32", 6) >>,
  Record_2_8 |-> <<
        F("curtime", "i64"),
        F("flags", "u16"),
        F("ncgroups", "u16"),
        A("sfuture", "u16", 2),
        F("scomplen", "u32"),
        F("pcomplen", "u32"),
        F("interval", "u32"),
        F("ndeviat", "u32"),
        F("nactproc", "u32"),
        F("ntask", "u32"),
        F("totproc", "u32"),
        F("totrun", "u32"),
        F("totslpi", "u32"),
        F("totslpu", "u32"),
        F("totzomb", "u32"),
        F("nexit", "u32"),
        F("noverflow", "u32"),
        F("totidle", "u32"),
        F("ccomplen", "u32"),
        F("coriglen", "u32"),
        F("ncgpids", "u32"),
        F("icomplen", "u32"),
        F("ifuture", "u32") >>,
  MemStat_2_8 |-> <<
        F("physmem", "i64"),
        F("freemem", "i64"),
        F("buffermem", "i64"),
        F("slabmem", "i64"),
        F("cachemem", "i64"),
        F("cachedrt", "i64"),
        F("totswap", "i64"),
        F("freeswap", "i64"),
        F("pgscans", "i64"),
        F("pgsteal", "i64"),
        F("allocstall", "i64"),
        F("swouts", "i64"),
        F("swins", "i64"),
        F("tcpsock", "i64"),
        F("udpsock", "i64"),
        F("commitlim", "i64"),
        F("committed", "i64"),
        F("shmem", "i64"),
        F("shmrss", "i64"),
        F("shmswp", "i64"),
        F("slabreclaim", "i64"),
        F("tothugepage", "i64"),
        F("freehugepage", "i64"),
        F("hugepagesz", "i64"),
        F("vmwballoon", "i64"),
        F("zfsarcsize", "i64"),
        F("swapcached", "i64"),
        F("ksmsharing", "i64"),
        F("ksmshared", "i64"),
        F("zswstored", "i64"),
        F("zswtotpool", "i64"),
        F("oomkills", "i64"),
        F("compactstall", "i64"),
        F("pgmigrate", "i64"),
        F("numamigrate", "i64"),
        F("pgouts", "i64"),
        F("pgins", "i64"),
        F("pagetables", "i64"),
        A("cfuture", "i64", 4) >>,
  ICMPv4Stats_2_8 |-> <<
        F("InMsgs", "i64"),
        F("InErrors", "i64"),
        F("InCsumErrors", "i64"),
        F("InDestUnreachs", "i64"),
        F("InTimeExcds", "i64"),
        F("InParmProbs", "i64"),
        F("InSrcQuenchs", "i64"),
        F("InRedirects", "i64"),
        F("InEchos", "i64"),
        F("InEchoReps", "i64"),
        F("InTimestamps", "i64"),
        F("InTimestampReps", "i64"),
        F("InAddrMasks", "i64"),
        F("InAddrMaskReps", "i64"),
        F("OutMsgs", "i64"),
        F("OutErrors", "i64"),
        F("OutDestUnreachs", "i64"),
        F("OutTimeExcds", "i64"),
        F("OutParmProbs", "i64"),
        F("OutSrcQuenchs", "i64"),
        F("OutRedirects", "i64"),
        F("OutEchos", "i64"),
        F("OutEchoReps", "i64"),
        F("OutTimestamps", "i64"),
        F("OutTimestampReps", "i64"),
        F("OutAddrMasks", "i64"),
        F("OutAddrMaskReps", "i64") >>,
  NETStat_2_8 |-> <<
        F("ipv4", "IPv4Stats_1_26"),
        F("icmpv4", "ICMPv4Stats_2_8"),
        F("udpv4", "UDPv4Stats_1_26"),
        F("ipv6", "IPv6Stats_1_26"),
        F("icmpv6", "ICMPv6Stats_1_26"),
        F("udpv6", "UDPv6Stats_1_26"),
        F("tcp", "TCPStats_1_26") >>,
  MemPerNUMA_2_8 |-> <<
        F("numanr", "i32"),
        F("frag", "f32"),
        F("totmem", "i64"),
        F("freemem", "i64"),
        F("filepage", "i64"),
        F("dirtymem", "i64"),
        F("slabmem", "i64"),
        F("slabreclaim", "i64"),
        F("active", "i64"),
        F("inactive", "i64"),
        F("shmem", "i64"),
        F("tothp", "i64") >>,
  MemNUMA_2_8 |-> <<
        F("nrnuma", "i64"),
        L("numa", "MemPerNUMA_2_8", 1024, "nrnuma") >>,
  CPUPerNUMA_2_8 |-> <<
        F("numanr", "i32"),
        F("nrcpu", "i64"),
        F("stime", "i64"),
        F("utime", "i64"),
        F("ntime", "i64"),
        F("itime", "i64"),
        F("wtime", "i64"),
        F("Itime", "i64"),
        F("Stime", "i64"),
        F("steal", "i64"),
        F("guest", "i64") >>,
  CPUNUMA_2_8 |-> <<
        F("nrnuma", "i64"),
        L("numa", "CPUPerNUMA_2_8", 1024, "nrnuma") >>,
  PerDSK_2_8 |-> <<
        A("name", "chr", 32),
        F("nread", "i64"),
        F("nrsect", "i64"),
        F("nwrite", "i64"),
        F("nwsect", "i64"),
        F("io_ms", "i64"),
        F("avque", "i64"),
        F("ndisc", "i64"),
        F("ndsect", "i64"),
        F("inflight", "i64"),
        A("cfuture", "i64", 3) >>,
  DSKStat_2_8 |-> <<
        F("ndsk", "i32"),
        F("nmdd", "i32"),
        F("nlvm", "i32"),
        L("dsk", "PerDSK_2_8", 1024, "ndsk"),
        L("mdd", "PerDSK_2_8", 256, "nmdd"),
        L("lvm", "PerDSK_2_8", 2048, "nlvm") >>,
  PerLLC_2_8 |-> <<
        F("id", "u8"),
        F("occupancy", "f32"),
        F("mbm_local", "i64"),
        F("mbm_total", "i64") >>,
  LLCStat_2_8 |-> <<
        F("nrllcs", "i32"),
        L("perllc", "PerLLC_2_8", 256, "nrllcs") >>,
  SStat_2_8 |-> <<
        F("cpu", "CPUStat_2_7"),
        F("mem", "MemStat_2_8"),
        F("net", "NETStat_2_8"),
        F("intf", "IntfStat_2_3"),
        F("memnuma", "MemNUMA_2_8"),
        F("cpunuma", "CPUNUMA_2_8"),
        F("dsk", "DSKStat_2_8"),
        F("nfs", "NFSStat_2_3"),
        F("cfs", "ContStat_2_3"),
        F("psi", "Pressure_2_4"),
        F("gpu", "GPUStat_2_4"),
        F("ifb", "IFBStat_2_4"),
        F("llc", "LLCStat_2_8"),
        F("www", "WWWStat_1_26") >>,
  GEN_2_8 |-> <<
        F("tgid", "i32"),
        F("pid", "i32"),
        F("ppid", "i32"),
        F("ruid", "i32"),
        F("euid", "i32"),
        F("suid", "i32"),
        F("fsuid", "i32"),
        F("rgid", "i32"),
        F("egid", "i32"),
        F("sgid", "i32"),
        F("fsgid", "i32"),
        F("nthr", "i32"),
        A("name", "chr", 16),
        F("isproc", "chr"),
        F("state", "chr"),
        F("excode", "i32"),
        F("btime", "i64"),
        F("elaps", "i64"),
        A("cmdline", "chr", 256),
        F("nthrslpi", "i32"),
        F("nthrslpu", "i32"),
        F("nthrrun", "i32"),
        F("ctid", "i32"),
        F("vpid", "i32"),
        F("wasinactive", "i32"),
        A("container", "chr", 16),
        A("cgpath", "chr", 64) >>,
  CPU_2_8 |-> <<
        F("utime", "i64"),
        F("stime", "i64"),
        F("nice", "i32"),
        F("prio", "i32"),
        F("rtprio", "i32"),
        F("policy", "i32"),
        F("curcpu", "i32"),
        F("sleepavg", "i32"),
        F("cgcpuweight", "i32"),
        F("cgcpumax", "i32"),
        F("cgcpumaxr", "i32"),
        A("ifuture", "i32", 3),
        A("wchan", "chr", 16),
        F("rundelay", "i64"),
        F("blkdelay", "i64"),
        A("cfuture", "i64", 3) >>,
  MEM_2_8 |-> <<
        F("minflt", "i64"),
        F("majflt", "i64"),
        F("vexec", "i64"),
        F("vmem", "i64"),
        F("rmem", "i64"),
        F("pmem", "i64"),
        F("vgrow", "i64"),
        F("rgrow", "i64"),
        F("vdata", "i64"),
        F("vstack", "i64"),
        F("vlibs", "i64"),
        F("vswap", "i64"),
        F("vlock", "i64"),
        F("cgmemmax", "i64"),
        F("cgmemmaxr", "i64"),
        F("cgswpmax", "i64"),
        F("cgswpmaxr", "i64"),
        A("cfuture", "i64", 3) >>,
  TStat_2_8 |-> <<
        F("gen", "GEN_2_8"),
        F("cpu", "CPU_2_8"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_2_8"),
        F("net", "NET_2_3"),
        F("gpu", "GPU_2_4") >>,
  CPU_2_9 |-> <<
        F("utime", "i64"),
        F("stime", "i64"),
        F("nice", "i32"),
        F("prio", "i32"),
        F("rtprio", "i32"),
        F("policy", "i32"),
        F("curcpu", "i32"),
        F("sleepavg", "i32"),
        F("cgcpuweight", "i32"),
        F("cgcpumax", "i32"),
        F("cgcpumaxr", "i32"),
        A("ifuture", "i32", 3),
        A("wchan", "chr", 16),
        F("rundelay", "i64"),
        F("blkdelay", "i64"),
        F("nvcsw", "i64"),
        F("nivcsw", "i64"),
        A("cfuture", "i64", 1) >>,
  TStat_2_9 |-> <<
        F("gen", "GEN_2_8"),
        F("cpu", "CPU_2_9"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_2_8"),
        F("net", "NET_2_3"),
        F("gpu", "GPU_2_4") >>,
  Record_2_10 |-> <<
        F("curtime", "i64"),
        F("flags", "u16"),
        A("sfuture", "u16", 3),
        F("scomplen", "u32"),
        F("pcomplen", "u32"),
        F("interval", "u32"),
        F("ndeviat", "u32"),
        F("nactproc", "u32"),
        F("ntask", "u32"),
        F("totproc", "u32"),
        F("totrun", "u32"),
        F("totslpi", "u32"),
        F("totslpu", "u32"),
        F("totzomb", "u32"),
        F("nexit", "u32"),
        F("noverflow", "u32"),
        F("totidle", "u32"),
        A("ifuture", "u32", 5) >>,
  MemStat_2_10 |-> <<
        F("physmem", "i64"),
        F("freemem", "i64"),
        F("buffermem", "i64"),
        F("slabmem", "i64"),
        F("cachemem", "i64"),
        F("cachedrt", "i64"),
        F("totswap", "i64"),
        F("freeswap", "i64"),
        F("pgscans", "i64"),
        F("pgsteal", "i64"),
        F("allocstall", "i64"),
        F("swouts", "i64"),
        F("swins", "i64"),
        F("tcpsock", "i64"),
        F("udpsock", "i64"),
        F("commitlim", "i64"),
        F("committed", "i64"),
        F("shmem", "i64"),
        F("shmrss", "i64"),
        F("shmswp", "i64"),
        F("slabreclaim", "i64"),
        F("stothugepage", "i64"),
        F("sfreehugepage", "i64"),
        F("shugepagesz", "i64"),
        F("vmwballoon", "i64"),
        F("zfsarcsize", "i64"),
        F("swapcached", "i64"),
        F("ksmsharing", "i64"),
        F("ksmshared", "i64"),
        F("zswapped", "i64"),
        F("zswap", "i64"),
        F("oomkills", "i64"),
        F("compactstall", "i64"),
        F("pgmigrate", "i64"),
        F("numamigrate", "i64"),
        F("pgouts", "i64"),
        F("pgins", "i64"),
        F("pagetables", "i64"),
        F("zswouts", "i64"),
        F("zswins", "i64"),
        F("ltothugepage", "i64"),
        F("lfreehugepage", "i64"),
        F("lhugepagesz", "i64"),
        F("availablemem", "i64"),
        F("anonhugepage", "i64"),
        A("cfuture", "i64", 4) >>,
  TCPStats_2_10 |-> <<
        F("RtoAlgorithm", "i64"),
        F("RtoMin", "i64"),
        F("RtoMax", "i64"),
        F("MaxConn", "i64"),
        F("ActiveOpens", "i64"),
        F("PassiveOpens", "i64"),
        F("AttemptFails", "i64"),
        F("EstabResets", "i64"),
        F("CurrEstab", "i64"),
        F("InSegs", "i64"),
        F("OutSegs", "i64"),
        F("RetransSegs", "i64"),
        F("InErrs", "i64"),
        F("OutRsts", "i64"),
        F("InCsumErrors", "i64") >>,
  NETStat_2_10 |-> <<
        F("ipv4", "IPv4Stats_1_26"),
        F("icmpv4", "ICMPv4Stats_2_8"),
        F("udpv4", "UDPv4Stats_1_26"),
        F("ipv6", "IPv6Stats_1_26"),
        F("icmpv6", "ICMPv6Stats_1_26"),
        F("udpv6", "UDPv6Stats_1_26"),
        F("tcp", "TCPStats_2_10") >>,
  MemPerNUMA_2_10 |-> <<
        F("numanr", "i32"),
        F("frag", "f32"),
        F("totmem", "i64"),
        F("freemem", "i64"),
        F("filepage", "i64"),
        F("dirtymem", "i64"),
        F("slabmem", "i64"),
        F("slabreclaim", "i64"),
        F("active", "i64"),
        F("inactive", "i64"),
        F("shmem", "i64"),
        F("tothp", "i64"),
        F("freehp", "i64") >>,
  MemNUMA_2_10 |-> <<
        F("nrnuma", "i64"),
        L("numa", "MemPerNUMA_2_10", 1024, "nrnuma") >>,
  SStat_2_10 |-> <<
        F("cpu", "CPUStat_2_7"),
        F("mem", "MemStat_2_10"),
        F("net", "NETStat_2_10"),
        F("intf", "IntfStat_2_3"),
        F("memnuma", "MemNUMA_2_10"),
        F("cpunuma", "CPUNUMA_2_8"),
        F("dsk", "DSKStat_2_8"),
        F("nfs", "NFSStat_2_3"),
        F("cfs", "ContStat_2_3"),
        F("psi", "Pressure_2_4"),
        F("gpu", "GPUStat_2_4"),
        F("ifb", "IFBStat_2_4"),
        F("llc", "LLCStat_2_8"),
        F("www", "WWWStat_1_26") >>,
  GEN_2_10 |-> <<
        F("tgid", "i32"),
        F("pid", "i32"),
        F("ppid", "i32"),
        F("ruid", "i32"),
        F("euid", "i32"),
        F("suid", "i32"),
        F("fsuid", "i32"),
        F("rgid", "i32"),
        F("egid", "i32"),
        F("sgid", "i32"),
        F("fsgid", "i32"),
        F("nthr", "i32"),
        A("name", "chr", 16),
        F("isproc", "chr"),
        F("state", "chr"),
        F("excode", "i32"),
        F("btime", "i64"),
        F("elaps", "i64"),
        A("cmdline", "chr", 256),
        F("nthrslpi", "i32"),
        F("nthrslpu", "i32"),
        F("nthrrun", "i32"),
        F("nthridle", "i32"),
        F("ctid", "i32"),
        F("vpid", "i32"),
        F("wasinactive", "i32"),
        A("utsname", "chr", 16),
        A("cgpath", "chr", 64) >>,
  CPU_2_10 |-> <<
        F("utime", "i64"),
        F("stime", "i64"),
        F("nice", "i32"),
        F("prio", "i32"),
        F("rtprio", "i32"),
        F("policy", "i32"),
        F("curcpu", "i32"),
        F("sleepavg", "i32"),
        F("cgcpuweight", "i32"),
        F("cgcpumax", "i32"),
        F("cgcpumaxr", "i32"),
        A("ifuture", "i32", 3),
        A("wchan", "chr", 16),
        F("rundelay", "i64"),
        F("blkdelay", "i64"),
        F("nvcsw", "i64"),
        F("nivcsw", "i64"),
        A("cfuture", "i64", 3) >>,
  TStat_2_10 |-> <<
        F("gen", "GEN_2_10"),
        F("cpu", "CPU_2_10"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_2_8"),
        F("net", "NET_2_3"),
        F("gpu", "GPU_2_4") >>,
  Header_2_11 |-> <<
        F("magic", "u32"),
        F("aversion", "u16"),
        F("future1", "u16"),
        F("future2", "u16"),
        F("rawheadlen", "u16"),
        F("rawreclen", "u16"),
        F("hertz", "u16"),
        F("pidwidth", "u16"),
        A("sfuture", "u16", 5),
        F("sstatlen", "u32"),
        F("tstatlen", "u32"),
        F("utsname", "UTSName"),
        A("cfuture", "chr", 8),
        F("pagesize", "u32"),
        F("supportflags", "i32"),
        F("osrel", "i32"),
        F("osvers", "i32"),
        F("ossub", "i32"),
        F("cstatlen", "i32"),
        A("ifuture", "i32", 5) >>,
  MemStat_2_11 |-> <<
        F("physmem", "i64"),
        F("freemem", "i64"),
        F("buffermem", "i64"),
        F("slabmem", "i64"),
        F("cachemem", "i64"),
        F("cachedrt", "i64"),
        F("totswap", "i64"),
        F("freeswap", "i64"),
        F("pgscans", "i64"),
        F("pgsteal", "i64"),
        F("allocstall", "i64"),
        F("swouts", "i64"),
        F("swins", "i64"),
        F("tcpsock", "i64"),
        F("udpsock", "i64"),
        F("commitlim", "i64"),
        F("committed", "i64"),
        F("shmem", "i64"),
        F("shmrss", "i64"),
        F("shmswp", "i64"),
        F("slabreclaim", "i64"),
        F("stothugepage", "i64"),
        F("sfreehugepage", "i64"),
        F("shugepagesz", "i64"),
        F("vmwballoon", "i64"),
        F("zfsarcsize", "i64"),
        F("swapcached", "i64"),
        F("ksmsharing", "i64"),
        F("ksmshared", "i64"),
        F("zswapped", "i64"),
        F("zswap", "i64"),
        F("oomkills", "i64"),
        F("compactstall", "i64"),
        F("pgmigrate", "i64"),
        F("numamigrate", "i64"),
        F("pgouts", "i64"),
        F("pgins", "i64"),
        F("pagetables", "i64"),
        F("zswouts", "i64"),
        F("zswins", "i64"),
        F("ltothugepage", "i64"),
        F("lfreehugepage", "i64"),
        F("lhugepagesz", "i64"),
        F("availablemem", "i64"),
        F("anonhugepage", "i64"),
        A("cfuture", "i64", 5) >>,
  MemPerNUMA_2_11 |-> <<
        F("numanr", "i32"),
        F("frag", "f32"),
        F("totmem", "i64"),
        F("freemem", "i64"),
        F("filepage", "i64"),
        F("dirtymem", "i64"),
        F("slabmem", "i64"),
        F("slabreclaim", "i64"),
        F("active", "i64"),
        F("inactive", "i64"),
        F("shmem", "i64"),
        F("tothp", "i64"),
        F("freehp", "i64"),
        A("cfuture", "i64", 2) >>,
  MemNUMA_2_11 |-> <<
        F("nrnuma", "i64"),
        L("numa", "MemPerNUMA_2_11", 1024, "nrnuma") >>,
  CPUPerNUMA_2_11 |-> <<
        F("numanr", "i32"),
        F("nrcpu", "i64"),
        F("stime", "i64"),
        F("utime", "i64"),
        F("ntime", "i64"),
        F("itime", "i64"),
        F("wtime", "i64"),
        F("Itime", "i64"),
        F("Stime", "i64"),
        F("steal", "i64"),
        F("guest", "i64"),
        A("cfuture", "i64", 2) >>,
  CPUNUMA_2_11 |-> <<
        F("nrnuma", "i64"),
        L("numa", "CPUPerNUMA_2_11", 1024, "nrnuma") >>,
  PerIFB_2_11 |-> <<
        A("ibname", "chr", 12),
        F("portnr", "i16"),
        F("lanes", "i16"),
        F("rate", "i64"),
        F("rcvb", "i64"),
        F("sndb", "i64"),
        F("rcvp", "i64"),
        F("sndp", "i64"),
        A("cfuture", "i64", 4) >>,
  IFBStat_2_11 |-> <<
        F("nrports", "i32"),
        L("ifb", "PerIFB_2_11", 32, "nrports") >>,
  SStat_2_11 |-> <<
        F("cpu", "CPUStat_2_7"),
        F("mem", "MemStat_2_11"),
        F("net", "NETStat_2_10"),
        F("intf", "IntfStat_2_3"),
        F("memnuma", "MemNUMA_2_11"),
        F("cpunuma", "CPUNUMA_2_11"),
        F("dsk", "DSKStat_2_8"),
        F("nfs", "NFSStat_2_3"),
        F("cfs", "ContStat_2_3"),
        F("psi", "Pressure_2_4"),
        F("gpu", "GPUStat_2_4"),
        F("ifb", "IFBStat_2_11"),
        F("llc", "LLCStat_2_8"),
        F("www", "WWWStat_1_26") >>,
  GEN_2_11 |-> <<
        F("tgid", "i32"),
        F("pid", "i32"),
        F("ppid", "i32"),
        F("ruid", "i32"),
        F("euid", "i32"),
        F("suid", "i32"),
        F("fsuid", "i32"),
        F("rgid", "i32"),
        F("egid", "i32"),
        F("sgid", "i32"),
        F("fsgid", "i32"),
        F("nthr", "i32"),
        A("name", "chr", 16),
        F("isproc", "chr"),
        F("state", "chr"),
        F("excode", "i32"),
        F("btime", "i64"),
        F("elaps", "i64"),
        A("cmdline", "chr", 256),
        F("nthrslpi", "i32"),
        F("nthrslpu", "i32"),
        F("nthrrun", "i32"),
        F("nthridle", "i32"),
        F("ctid", "i32"),
        F("vpid", "i32"),
        F("wasinactive", "i32"),
        A("utsname", "chr", 16),
        F("cgroupix", "i32"),
        A("ifuture", "i32", 4) >>,
  CPU_2_11 |-> <<
        F("utime", "i64"),
        F("stime", "i64"),
        F("nice", "i32"),
        F("prio", "i32"),
        F("rtprio", "i32"),
        F("policy", "i32"),
        F("curcpu", "i32"),
        F("sleepavg", "i32"),
        A("ifuture", "i32", 6),
        A("wchan", "chr", 16),
        F("rundelay", "i64"),
        F("blkdelay", "i64"),
        F("nvcsw", "i64"),
        F("nivcsw", "i64"),
        A("cfuture", "i64", 3) >>,
  MEM_2_11 |-> <<
        F("minflt", "i64"),
        F("majflt", "i64"),
        F("vexec", "i64"),
        F("vmem", "i64"),
        F("rmem", "i64"),
        F("pmem", "i64"),
        F("vgrow", "i64"),
        F("rgrow", "i64"),
        F("vdata", "i64"),
        F("vstack", "i64"),
        F("vlibs", "i64"),
        F("vswap", "i64"),
        F("vlock", "i64"),
        A("cfuture", "i64", 7) >>,
  GPU_2_11 |-> <<
        F("state", "chr"),
        A("bfuture", "chr", 3),
        F("nrgpus", "i16"),
        F("gpulist", "i32"),
        F("gpubusy", "i32"),
        F("membusy", "i32"),
        F("timems", "i64"),
        F("memnow", "i64"),
        F("memcum", "i64"),
        F("sample", "i64"),
        A("cfuture", "i64", 3) >>,
  TStat_2_11 |-> <<
        F("gen", "GEN_2_11"),
        F("cpu", "CPU_2_11"),
        F("dsk", "DSK_1_26"),
        F("mem", "MEM_2_11"),
        F("net", "NET_2_3"),
        F("gpu", "GPU_2_11") >>,
  CGGen_2_11 |-> <<
        F("structlen", "i32"),
        F("sequence", "i32"),
        F("parentseq", "i32"),
        F("depth", "i32"),
        F("nprocs", "i32"),
        F("procsbelow", "i32"),
        F("namelen", "i32"),
        F("fullnamelen", "i32"),
        A("ifuture", "i32", 4),
        F("namehash", "i64"),
        A("lfuture", "i64", 4) >>,
  CGConf_2_11 |-> <<
        F("cpuweight", "i32"),
        F("cpumax", "i32"),
        F("memmax", "i64"),
        F("swpmax", "i64"),
        F("dskweight", "i32"),
        A("ifuture", "i32", 5),
        A("cfuture", "i64", 5) >>,
  CGCPU_2_11 |-> <<
        F("utime", "i64"),
        F("stime", "i64"),
        F("somepres", "i64"),
        F("fullpres", "i64"),
        A("cfuture", "i64", 5) >>,
  CGMem_2_11 |-> <<
        F("current", "i64"),
        F("anon", "i64"),
        F("file", "i64"),
        F("kernel", "i64"),
        F("shmem", "i64"),
        F("somepres", "i64"),
        F("fullpres", "i64"),
        A("cfuture", "i64", 5) >>,
  CGDSK_2_11 |-> <<
        F("rbytes", "i64"),
        F("wbytes", "i64"),
        F("rios", "i64"),
        F("wios", "i64"),
        F("somepres", "i64"),
        F("fullpres", "i64"),
        A("cfuture", "i64", 5) >>,
  CStat_2_11 |-> <<
        F("gen", "CGGen_2_11"),
        F("conf", "CGConf_2_11"),
        F("cpu", "CGCPU_2_11"),
        F("mem", "CGMem_2_11"),
        F("dsk", "CGDSK_2_11"),
        A("cgname", "chr", 0) >>
]

\* The structures, every one behind those it contains.
StructOrder == <<
    "UTSName", "Header_1_26", "Record_1_26", "FreqCnt_1_26", "PerCPU_1_26", "CPUStat_1_26",
    "MemStat_1_26", "IPv4Stats_1_26", "ICMPv4Stats_1_26", "UDPv4Stats_1_26", "IPv6Stats_1_26",
    "ICMPv6Stats_1_26", "UDPv6Stats_1_26", "TCPStats_1_26", "NETStat_1_26", "PerIntf_1_26",
    "IntfStat_1_26", "PerDSK_1_26", "DSKStat_1_26", "WWWStat_1_26", "SStat_1_26", "GEN_1_26",
    "CPU_1_26", "DSK_1_26", "MEM_1_26", "NET_1_26", "PStat_1_26", "Header_2_3", "Record_2_3",
    "PerCPU_2_3", "CPUStat_2_3", "MemStat_2_3", "PerIntf_2_3", "IntfStat_2_3", "DSKStat_2_3",
    "Server_2_3", "Client_2_3", "PerNFSMount_2_3", "NFSMounts_2_3", "NFSStat_2_3",
    "PerContainer_2_3", "ContStat_2_3", "SStat_2_3", "GEN_2_3", "MEM_2_3", "NET_2_3", "TStat_2_3",
    "PerCPU_2_4", "CPUStat_2_4", "PSI_2_4", "Pressure_2_4", "PerGPU_2_4", "GPUStat_2_4",
    "PerIFB_2_4", "IFBStat_2_4", "SStat_2_4", "GPU_2_4", "TStat_2_4", "MemStat_2_6", "SStat_2_6",
    "CPU_2_6", "MEM_2_6", "TStat_2_6", "PerCPU_2_7", "CPUStat_2_7", "MemStat_2_7", "MemPerNUMA_2_7",
    "MemNUMA_2_7", "CPUPerNUMA_2_7", "CPUNUMA_2_7", "PerDSK_2_7", "DSKStat_2_7", "SStat_2_7",
    "Header_2_8", "Record_2_8", "MemStat_2_8", "ICMPv4Stats_2_8", "NETStat_2_8", "MemPerNUMA_2_8",
    "MemNUMA_2_8", "CPUPerNUMA_2_8", "CPUNUMA_2_8", "PerDSK_2_8", "DSKStat_2_8", "PerLLC_2_8",
    "LLCStat_2_8", "SStat_2_8", "GEN_2_8", "CPU_2_8", "MEM_2_8", "TStat_2_8", "CPU_2_9",
    "TStat_2_9", "Record_2_10", "MemStat_2_10", "TCPStats_2_10", "NETStat_2_10", "MemPerNUMA_2_10",
    "MemNUMA_2_10", "SStat_2_10", "GEN_2_10", "CPU_2_10", "TStat_2_10", "Header_2_11",
    "MemStat_2_11", "MemPerNUMA_2_11", "MemNUMA_2_11", "CPUPerNUMA_2_11", "CPUNUMA_2_11",
    "PerIFB_2_11", "IFBStat_2_11", "SStat_2_11", "GEN_2_11", "CPU_2_11", "MEM_2_11", "GPU_2_11",
    "TStat_2_11", "CGGen_2_11", "CGConf_2_11", "CGCPU_2_11", "CGMem_2_11", "CGDSK_2_11",
    "CStat_2_11" >>

Formats == [v \in Versions |->
  CASE v = "1.26" -> [header |-> "Header_1_26", record |-> "Record_1_26", sstat |-> "SStat_1_26", tstat |-> "PStat_1_26"]
    [] v = "2.3" -> [header |-> "Header_2_3", record |-> "Record_2_3", sstat |-> "SStat_2_3", tstat |-> "TStat_2_3"]
    [] v = "2.4" -> [header |-> "Header_2_3", record |-> "Record_2_3", sstat |-> "SStat_2_4", tstat |-> "TStat_2_4"]
    [] v = "2.5" -> [header |-> "Header_2_3", record |-> "Record_2_3", sstat |-> "SStat_2_4", tstat |-> "TStat_2_4"]
    [] v = "2.6" -> [header |-> "Header_2_3", record |-> "Record_2_3", sstat |-> "SStat_2_6", tstat |-> "TStat_2_6"]
    [] v = "2.7" -> [header |-> "Header_2_3", record |-> "Record_2_3", sstat |-> "SStat_2_7", tstat |-> "TStat_2_6"]
    [] v = "2.8" -> [header |-> "Header_2_8", record |-> "Record_2_8", sstat |-> "SStat_2_8", tstat |-> "TStat_2_8"]
    [] v = "2.9" -> [header |-> "Header_2_8", record |-> "Record_2_8", sstat |-> "SStat_2_8", tstat |-> "TStat_2_9"]
    [] v = "2.10" -> [header |-> "Header_2_8", record |-> "Record_2_10", sstat |-> "SStat_2_10", tstat |-> "TStat_2_10"]
    [] v = "2.11" -> [header |-> "Header_2_11", record |-> "Record_2_8", sstat |-> "SStat_2_11", tstat |-> "TStat_2_11", cstat |-> "CStat_2_11"]
    [] v = "2.12" -> [header |-> "Header_2_11", record |-> "Record_2_8", sstat |-> "SStat_2_11", tstat |-> "TStat_2_11", cstat |-> "CStat_2_11"]
]

=============================================================================
