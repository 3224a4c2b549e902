"""Parseable rows of system statistics of 1.26 logs: every label over tables that are empty, partly filled, full, with
named entries behind the first unnamed one, all core counts, extreme and patterned values, sums that carry beyond 64
bits or cancel, names with invalid UTF-8; on one log and in turn with a second one."""

from .. import layout
from ..content import View
from ..gen import rng, sample, trace
from ..logs import Log, header
from ..run import stream
from .c12 import limiters
from .c13 import FLOATS, number, text

VER = "1.26"
TABLES = {"DSK": ("dsk", "dsk"), "LVM": ("dsk", "lvm"), "MDD": ("dsk", "mdd"), "NETL": ("intf", "intf")}
LABELS = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "SWP"]


def models(tier):
    return [("MCParse", "MCParse" if tier == "quick" else "MCParse3"), ("MCText", "MCText")]


def batches(tier, seed):
    return [(seed, k, tier) for k in range(16 if tier == "quick" else 64)]


def capacity(path):
    lay = layout.load()
    f = lay.fields[lay.fields[lay.formats[VER]["sstat"]][path[0]]["t"]][path[1]]
    return f["c"], f["t"]


def name(r, n):
    """A text of a named entry: does not begin with NUL."""
    while True:
        t = text(r, n)
        if t[0] != 0:
            return t


# Names as they are on machines, idle or not.
DEVICES = {"dsk": ["sda", "sdb", "sdc1", "sdaa", "vda", "xvda", "hda", "hdc", "nvme0n1", "nvme1n1p2", "mmcblk0", "loop0", "loop7", "ram0", "ram15", "zram0",
                   "sr0", "fd0", "nbd0", "dm-0", "dm-12", "md0", "md127", "nfs", "tmpfs", "none", "-", "0", "vg-root", "vg-swap", "luks-1"],
           "intf": ["lo", "eth0", "eth1", "enp0s3", "wlan0", "docker0", "br-1234", "veth12ab", "virbr0", "tun0", "tap0", "bond0", "eth0.1", "sit0", "ppp0", "ib0", "dummy0", "-"]}


def devices(s, r):
    """Named entries of everyday machines: idle ones (all zero) among busy ones, some of them twice."""
    lay = layout.load()
    v = s.view("ss")
    for path in TABLES.values():
        cap, t = capacity(path)
        numbers = [f for f in lay.fields[t] if lay.fields[t][f]["k"] == "one" and lay.fields[t][f]["t"] in lay.prims]
        some = [r.choice(DEVICES[path[0]]) for _ in range(r.randrange(3))] + r.sample(DEVICES[path[0]], min(len(DEVICES[path[0]]), r.choice([3, 8, cap])))
        for x in range(cap):
            width = lay.fields[t]["name"]["c"]
            v.set(*path, x, "name", some[x].encode().ljust(width, b"\0") if x < len(some) else b"\0" * width)
            busy = r.choice([0, 0, 1, 2])
            for f in numbers:
                v.set(*path, x, f, 0 if not busy or r.random() < 0.3 * busy else r.randrange(1, 1 << 20))


def fill(s, r, counts, cores):
    """Name the given number of entries of each table (path -> number, or a set of entries)."""
    lay = layout.load()
    v = s.view("ss")
    for path, n in counts.items():
        cap, t = capacity(path)
        width = lay.fields[t]["name"]["c"]
        named = set(range(min(n, cap))) if isinstance(n, int) else n
        for x in range(cap):
            v.set(*path, x, "name", name(r, width) if x in named else b"\0" + name(r, width - 1) if r.random() < 0.3 else b"\0" * width)
    v.set("cpu", "nrcpu", cores)


NUMBERS = [("mem", x) for x in ("physmem", "freemem", "cachemem", "buffermem", "slabmem", "cachedrt", "pgscans", "allocstall", "swins", "swouts",
                                "totswap", "freeswap", "committed", "commitlim")]
NUMBERS += [("cpu", x) for x in ("csw", "devint")]
NUMBERS += [("cpu", "all", x) for x in ("stime", "utime", "ntime", "itime", "wtime", "Itime", "Stime", "steal", "guest")]
SUMS = [(("net", "udpv4", "InDatagrams"), ("net", "udpv6", "Udp6InDatagrams")), (("net", "udpv4", "OutDatagrams"), ("net", "udpv6", "Udp6OutDatagrams")),
        (("net", "ipv4", "InReceives"), ("net", "ipv6", "Ip6InReceives")), (("net", "ipv4", "OutRequests"), ("net", "ipv6", "Ip6OutRequests")),
        (("net", "ipv4", "InDelivers"), ("net", "ipv6", "Ip6InDelivers")), (("net", "ipv4", "ForwDatagrams"), ("net", "ipv6", "Ip6OutForwDatagrams"))]


def scatter(s, r, extreme):
    lay = layout.load()
    v = s.view("ss")
    for p in NUMBERS + [x for q in SUMS for x in q] + [("net", "tcp", "InSegs"), ("net", "tcp", "OutSegs")]:
        if extreme:
            v.set(*p, number(r, "i64", 8))
        else:
            # No two alike.
            v.set(*p, r.randrange(1, 1 << 40))
    if extreme:
        for a, b in SUMS:
            x = r.choice([(1 << 63) - 1, (1 << 63) - 1, -(1 << 63), (1 << 62), -1, 255, 0])
            v.set(*a, x).set(*b, r.choice([x, -x if x != -(1 << 63) else x, 1, -1, 0, (1 << 63) - 1, 257]))
    for n in ("lavg1", "lavg5", "lavg15"):
        v.set("cpu", n, r.choice(FLOATS) if extreme else r.uniform(0, 1000))


def make(arg):
    seed, k, tier = arg
    r = rng("C14", seed, k)
    lay = layout.load()
    cores, _ = capacity(("cpu", "cpu"))
    logs, traces = [], []
    counts = [0, 1, 2, 3, "full", "full", "gap", "behind", "some", "last"]

    def count(cap):
        c = r.choice(counts)
        if c == "full":
            return cap
        if c == "gap":
            n = r.randrange(1, cap)
            return set(range(cap)) - {n}
        if c == "behind":
            return set(range(1, r.randrange(2, cap + 1)))
        if c == "last":
            return cap - 1
        return r.randrange(cap + 1) if c == "some" else c

    def one(n):
        extreme = r.random() < 0.5
        s = sample(VER, r, tasks=r.choice([0, 1, 3]), rich=n % 3 != 0, record={} if n % 2 else {"curtime": r.choice([0, -1, (1 << 63) - 1, 1 << 31]), "interval": r.choice([0, 1 << 31, (1 << 32) - 1, -1])})
        if n % 3 == 0:
            s.ss.seed = -r.choice([0, 255, 128, 127, 1])
        scatter(s, r, extreme)
        for x in range(cores) if n % 3 == 0 else ():
            for f in ("stime", "utime", "ntime", "itime", "wtime", "Itime", "Stime", "steal", "guest"):
                s.view("ss").set("cpu", "cpu", x, f, number(r, "i64", 8) if extreme else r.randrange(1 << 40))
            s.view("ss").set("cpu", "cpu", x, "cpunr", r.choice([x, 0, 99, x + 1]))
        for path in TABLES.values() if n % 3 == 0 else ():
            cap, t = capacity(path)
            fields = [f for f in lay.fields[t] if lay.fields[t][f]["k"] == "one" and lay.fields[t][f]["t"] in lay.prims]
            for x in r.sample(range(cap), min(cap, 12)):
                for f in fields:
                    w = lay.width(lay.fields[t][f]["t"])
                    s.view("ss").set(*path, x, f, number(r, "", w) if extreme else r.randrange(1 << min(40, 8 * w)))
        nr = r.choice([0, 1, 2, 3, 8, cores - 1, cores, cores + 1, 1000, r.randrange(cores)])
        fill(s, r, {p: count(capacity(p)[0]) for p in TABLES.values()}, nr)
        if n % 4 == 1:
            devices(s, r)
        # Recorded numbers of disks and interfaces do not matter for the rows.
        for path, lim, cap, _ in limiters(s.f["sstat"]):
            if path[0] in ("dsk", "intf"):
                s.view("ss").set(*path, lim, r.choice([0, 1, cap, cap - 1, 7]))
        return s

    for n in range(6 if tier == "quick" else 16):
        smps = [one(n), one(n + 1)]
        hdr = header(VER, seed=r.randrange(1, 60000) if n % 2 else 0)
        lay_h = View(lay, lay.formats[VER]["header"], hdr)
        for f in ("hertz", "pagesize", "supportflags"):
            lay_h.set(f, number(r, "", lay.width(lay.fields[lay.formats[VER]["header"]][f]["t"])) if n % 3 else r.randrange(1, 5000))
        logs.append(Log(VER, smps, hdr=hdr))
        labels = list(LABELS)
        r.shuffle(labels)
        ops = [["header", 1], ["iter", 1], ["next", 1], ["next", 1]]
        for lab in labels:
            ops += [["rows", 1, i, lab] for i in (1, 2)]
        # The structures stay what they were, and asking again gives the same.
        ops += [["held", 1, 1], ["rows", 1, 1, r.choice(LABELS)], ["rows", 1, 2, r.choice(LABELS)], ["held", 1, 2]]
        traces.append(trace(f"{k}-{n}", ops, stream(len(logs))))
        traces.append(trace(f"{k}-{n}-mix", ops[:4] + [["rowsmix"] + [[1, r.choice([1, 2]), lab] for lab in r.sample(LABELS, 4) + r.sample(LABELS, 2)]], stream(len(logs))))
    # Two readers in turn.
    ops = [["header", 1], ["header", 2], ["iter", 1], ["iter", 2], ["next", 1], ["next", 2]]
    for lab in LABELS:
        ops += [["rows", 1, 1, lab], ["rows", 2, 1, lab]]
    ops += [["rowsmix"] + [[h, 1, lab] for lab in r.sample(LABELS, 3) for h in (1, 2)]]
    traces.append(trace(f"{k}-pair", ops, stream(1), stream(2)))
    return {"logs": logs, "traces": traces}
