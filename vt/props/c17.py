"""The command with parseable labels: label lists of all lengths, orders and with repetitions, lists of 1.26 logs and logs of
other versions in all orders, cut logs, file names of all sorts, labels that do not exist."""

from .. import gen, layout
from ..gen import rng, sample, trace
from ..logs import Log, header
from ..run import stream
from .c12 import limiters, set_limiters
from .c13 import text
from .c14 import TABLES, fill, scatter
from .c16 import NAMES

VER = "1.26"
LABELS = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRG", "PRM", "PRN", "SWP"]
UNKNOWN = ["XYZ", "Cpu", "CPULPL", "cpu,CPL", "GPU", "NET", "parse", "__init__", "0", "cpU", "PR", "mem", "prc"]


def models(tier):
    return [("MCCommand", "MCCommand3")]


def batches(tier, seed):
    return [("many", seed, k, tier) for k in range(2)] + [("long", seed, k, tier) for k in range(2 if tier == "quick" else 8)] + [(seed, k, tier) for k in range(16 if tier == "quick" else 96)]


def one(r, n):
    lay = layout.load()
    s = sample(VER, r, tasks=r.choice([0, 1, 2, 4]), rich=r.random() < 0.5, record={})
    set_limiters(s, r, 100, limiters(s.f["sstat"]), lambda *a: r.choice([0, 1]))
    scatter(s, r, r.random() < 0.3)
    fill(s, r, {p: r.choice([0, 0, 1, 2, 3]) for p in TABLES.values()}, r.choice([0, 1, 2, 4]))
    for x in range(s.tasks):
        for p in (["gen", "name"], ["gen", "cmdline"]):
            s.view("ts", x).set(*p, text(r, lay.at(s.f["tstat"], *p)[3]))
    s.view("rec").set("curtime", 1000000 + n)
    return s


def make(arg):
    if arg[0] in ("long", "many"):
        return {"long": long, "many": many}[arg[0]](arg)
    seed, k, tier = arg
    r = rng("C17", seed, k)
    logs = [Log(VER, [one(r, n) for n in range(m)], hdr=header(VER, seed=r.randrange(60000))) for m in (3, 2, 1, 0)]
    others = [v for v in gen.versions() if v != VER]
    r.shuffle(others)
    for v in others[:4]:
        logs.append(gen.small(v, r, r.choice([0, 1, 2]), tasks=1, cgroups=[]))
    traces = []

    def add(id_, labels, picks, **kw):
        strs, files = [], []
        for p, g in picks:
            lg = logs[p - 1]
            cut = r.random() < 0.2 and len(lg.samples) > 0
            strs.append(stream(p, r.randrange(480, len(lg.data)) if cut else -1, cut and g))
            files.append([len(strs), f"{len(strs)}{r.choice(NAMES)}" + (".gz" if g else "")])
        if len(files) < 3 and r.random() < 0.3:
            files.append(list(files[0]))
        kw.setdefault("style", r.randrange(16))
        traces.append(trace(f"{k}-{id_}", [["cli", files, list(labels), {"pretty": r.random() < 0.3, "ts": r.random() < 0.3, "cs": r.random() < 0.3, **kw}]], *strs))

    gzip = lambda: r.random() < 0.4
    # Each label alone on some file; pairs in both orders; all in some order; repetitions.
    for lab in r.sample(LABELS, 5):
        add(f"one-{lab}", [lab], [(r.randrange(1, 5), gzip())], sub=lab == LABELS[k % 15])
    for n in range(4):
        labs = r.sample(LABELS, r.choice([2, 2, 3, 5]))
        if n % 2:
            labs.insert(r.randrange(len(labs) + 1), r.choice(labs))
        add(f"some{n}", labs, [(1 + n % 3, gzip())])
    labs = list(LABELS)
    r.shuffle(labs)
    add("all", labs, [(r.choice([1, 2, 3]), gzip())])
    # Files of several versions.
    for n in range(5):
        picks = [(r.choice([1, 2, 3, 4]), gzip()), (r.randrange(5, len(logs) + 1), gzip())]
        if n % 2:
            picks.append((r.randrange(1, len(logs) + 1), gzip()))
        r.shuffle(picks)
        add(f"mix{n}", r.sample(LABELS, r.choice([1, 2])), picks, sub=n == 0 and k % 4 == 0)
    # Files of other versions only.
    add("other", r.sample(LABELS, 2), [(r.randrange(5, len(logs) + 1), gzip()) for _ in range(r.choice([1, 2, 3]))])
    # Labels that do not exist.
    for n in range(3):
        labs = r.sample(LABELS, r.choice([0, 0, 1, 2]))
        labs.insert(r.randrange(len(labs) + 1), r.choice(UNKNOWN))
        add(f"unknown{n}", labs, [(r.randrange(1, len(logs) + 1), gzip())], sub=n == 0 and k % 8 == 1)
    # Full output does not care about labels of an earlier command in the same process.
    add("after", [], [(3, False)], ts=False)
    return {"logs": logs, "traces": traces, "seconds": 60}


def many(arg):
    """Samples of hundreds and thousands of tasks."""
    _, seed, k, tier = arg
    r = rng("C17many", seed, k)
    s = [sample(VER, r, tasks=n, rich=n < 200, record={}, level=1) for n in ((101, 260, 129) if k else (1100, 3, 4097))]
    for x in s:
        set_limiters(x, r, 100, limiters(x.f["sstat"]), lambda *a: 0)
        fill(x, r, {p: 10 ** 6 for p in TABLES.values()}, 10 ** 3 if k else 64)
    logs = [Log(VER, s, hdr=header(VER, seed=5))]
    few = {"few": 40 if k else 25}
    labs = r.sample(["PRC", "PRG", "PRM", "PRN"], 4)
    traces = [trace(f"many{k}-{n}", [["cli", [[1, "many" + (".gz" if n else "")]], l, {**few, "style": r.randrange(16)}]], stream(1))
              for n, l in enumerate([labs[:1], labs[1:3], [labs[3], r.choice(["cpu", "DSK", "NETL", "LVM"])]])]
    return {"logs": logs, "traces": traces, "seconds": 300}


def long(arg):
    """Logs of thousands of samples, up to the limit of the reader."""
    _, seed, k, tier = arg
    r = rng("C17long", seed, k)
    smps = [one(r, n) for n in range(7)]
    for s in smps:
        s.level = 6
    full = tier == "thorough" and k == 0
    logs = [Log(VER, smps, rep=86400 // 7 if full else 411), Log(VER, smps[:3], rep=200), gen.small("2.3", r, 2)]
    traces = []
    for n in range(3):
        labs = r.sample(LABELS, 1 if n == 0 else 3)
        files = [[1, "long" + (".gz" if n == 1 else "")], [2, "short.gz"], [3, "other"]]
        if n == 1:
            files.insert(0, files.pop())
        traces.append(trace(f"long{k}-{n}", [["cli", files[: 1 if full else 3], labs, {"few": 40, "style": r.randrange(16)}]], stream(1), stream(2), stream(3)))
    return {"logs": logs, "traces": traces, "seconds": 400}
