"""Lists of readable files and files that are none: missing ones, directories, empty files, text, noise, cut headers, wrong
magic numbers, lengths that do not fit the version, blocks that hold too little; plain and gzip, with and without labels."""

from .. import gen, spec_gen
from ..gen import rng, trace
from ..logs import MAGIC, Log, header
from ..run import stream
from . import c17
from .c16 import NAMES

KINDS = ["missing", "dir", "empty", "text", "noise", "zeros", "json"]


def models(tier):
    return [("MCCommand", "MCCommand3")]


def batches(tier, seed):
    n = 2 if tier == "quick" else 10
    return [(v, seed, k, tier) for v in gen.versions() for k in range(n)]


def make(arg):
    ver, seed, k, tier = arg
    r = rng("C19", ver, seed, k)
    from .c12 import limiters, set_limiters
    from .. import layout
    lims = limiters(layout.load().formats[ver]["sstat"])
    cgroups = ver in ("2.11", "2.12")
    logs, traces = [], []

    def log(n, hdr=None):
        lg = Log(ver, [c17.one(r, x) for x in range(n)], hdr=hdr or header(ver)) if ver == "1.26" else \
            gen.small(ver, r, n, tasks=2, cgroups=[(8, 2), (16, 1)])
        if hdr is not None:
            lg.hdr = hdr
        for s in lg.samples:
            set_limiters(s, r, 100, lims, lambda *a: r.choice([0, 1]))
        logs.append(lg)
        return len(logs)

    good = [log(2), log(1), log(0)]
    other = "1.26" if ver != "1.26" else r.choice(gen.versions())
    lg = gen.small(other, r, 1, tasks=1, cgroups=[])
    set_limiters(lg.samples[0], r, 100, limiters(layout.load().formats[other]["sstat"]), lambda *a: r.choice([0, 1]))
    logs.append(lg)
    good.append(len(logs))

    def bad(kind):
        """The log and cut of a stream that is no log; None for a file."""
        if kind in ("cut", "torn"):
            return r.choice(good), r.choice([0, 1, 3, 4, 100, 479, r.randrange(480)])
        if kind == "magic":
            return log(1, header(ver, magic=r.choice([MAGIC ^ 1 << r.randrange(32), 0, 0xEFBEEDFE, 0xFEEDFACE]))), -1
        if kind == "length":
            names = ["rawheadlen", "rawreclen", "sstatlen", "pstatlen" if ver == "1.26" else "tstatlen"] + ["cstatlen"] * cgroups
            name = r.choice(names)
            return log(1, header(ver, **{name: r.choice([0, 1, 65535, 4096])})), -1
        n = r.choice([1, 2, 3])
        x = log(n)
        s = logs[x - 1].samples[r.randrange(n)]
        blocks = [0] + [1] * (s.tasks > 0) + ([2, 3] if cgroups else [])
        spec_gen.Maker(r).shorten(s, r.choice(blocks))
        return x, -1

    def add(id_, picks, labels=(), **kw):
        """picks: good log number, or kind of a bad one."""
        strs, files = [], []
        for p in picks:
            zipped = r.random() < 0.4 or p == "torn"
            name = f"{len(files)}{r.choice(NAMES)}" + (".gz" if zipped else "")
            if p in KINDS:
                files.append([[p, r.randrange(1000)], name])
                continue
            num, cut = (p, -1) if isinstance(p, int) else bad(p)
            strs.append(stream(num, cut, p == "torn"))
            files.append([len(strs), name])
        if not strs:
            strs.append(stream(1))
        kw = {"pretty": r.random() < 0.3, "ts": r.random() < 0.3, "cs": r.random() < 0.3, "style": r.randrange(16), **kw}
        traces.append(trace(f"{ver}-{k}-{id_}", [["cli", files, list(labels), kw]], *strs))

    labels = lambda: r.sample(c17.LABELS, r.choice([1, 2])) if r.random() < 0.4 else []
    kinds = KINDS + ["cut", "torn", "torn", "magic", "length", "short", "short"]
    for n, kind in enumerate(kinds):
        add(f"{kind}{n}", [kind], labels(), sub=n == (gen.versions().index(ver) + k) % len(kinds))
        # Before, between and after good ones.
        picks = [r.choice(good) for _ in range(r.choice([1, 2]))]
        picks.insert(r.randrange(len(picks) + 1), kind)
        add(f"among{kind}{n}", picks, labels(), sub=n == (5 + gen.versions().index(ver) + k) % len(kinds))
    for n in range(4):
        picks = r.sample(kinds, 2) + [r.choice(good) for _ in range(2)]
        r.shuffle(picks)
        add(f"two{n}", picks, labels())
    # The same lists without anything bad.
    for n in range(3):
        add(f"good{n}", [r.choice(good) for _ in range(r.choice([1, 2, 3]))], labels())
    return {"logs": logs, "traces": traces, "seconds": 60}
