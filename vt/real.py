"""Logs written by atop itself, described like built ones."""

import functools
import glob
import gzip
import os
import zlib

from . import layout, tla
from .content import Content, View
from .logs import Log, Sample, _span

DATA = os.path.join(tla.ROOT, "data")


def names():
    return sorted(os.path.basename(p)[:-7] for p in glob.glob(os.path.join(DATA, "*.log.gz")))


def version(name):
    """atop_2_8_1 -> 2.8"""
    return ".".join(name.split("_")[1:3])


def _content(data):
    """Zeros with the rest as pokes."""
    res, n = Content(0), 0
    while n < len(data):
        if not data[n]:
            n += 1
            continue
        e = n
        while e < len(data) and data[e]:
            e += 1
        res.poke(n, data[n:e])
        n = e
    return res


def _num(lay, struct, data, *path):
    return int.from_bytes(data[slice(*_span(lay, struct, *path))], "little")


@functools.lru_cache(maxsize=32)
def _parts(name):
    with gzip.open(os.path.join(DATA, name + ".log.gz")) as f:
        return f.read()


def log(name, same=True, most=None):
    """The log as it was written (same: with its own compressed blocks)."""
    lay = layout.load()
    ver = version(name)
    f = lay.formats[ver]
    data = _parts(name)
    at = lay.size("Header_1_26")
    lg = Log(ver, [], hdr=_content(data[:at]))
    rsize = lay.size(f["record"])
    while at + rsize <= len(data) and (most is None or len(lg.samples) < most):
        rec = data[at : at + rsize]
        at += rsize
        lens = [_num(lay, f["record"], rec, n) for n in ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if lay.cgroups(ver) else [])]
        zs = []
        for n in lens:
            zs.append(data[at : at + n])
            at += n
        raw = [zlib.decompress(z) if z else b"" for z in zs]
        s = Sample(ver, 0, _num(lay, f["record"], rec, "nlist" if ver == "1.26" else "ndeviat"), None)
        s.rec, s.ss, s.ts = _content(rec), _content(raw[0]), _content(raw[1])
        s.lens[:2] = [len(raw[0]), len(raw[1])]
        if lay.cgroups(ver) and lens[2]:
            s.cg, o, size = [], 0, lay.size(f["cstat"])
            while o < len(raw[2]):
                whole = _num(lay, f["cstat"], raw[2][o:], "gen", "structlen")
                s.cg.append((whole - size, _num(lay, f["cstat"], raw[2][o:], "gen", "nprocs")))
                o += whole
            s.cs, s.pl = _content(raw[2]), _content(raw[3])
            s.lens[2:] = [len(raw[2]), len(raw[3])]
        if same:
            for b, z in enumerate(zs):
                if z:
                    s.damage[b] = lambda _, z=z: z
        lg.samples.append(s)
    lg.rest = data[at:]
    return lg


# -- scenarios on these logs, per property

LABELS14 = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "SWP"]
LABELS15 = ["PRC", "PRD", "PRG", "PRM", "PRN"]
USES = {"C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"}


def batches(prop, tier, seed):
    if prop not in USES:
        return []
    few = {"C06": lambda n: version(n) in ("2.11", "2.12"), "C14": lambda n: version(n) == "1.26", "C15": lambda n: version(n) == "1.26"}
    return [("real", prop, n, seed) for n in names() if few.get(prop, bool)(n)]


def make(arg):
    from . import gen
    from .gen import full_run, rng, trace
    from .run import stream
    _, prop, name, seed = arg
    r = rng("real", prop, name, seed)
    lay = layout.load()
    # As written; with other samples in between, in another order and compressed anew.
    lg, mixed = log(name), log(name, same=False)
    ver, f = lg.ver, lay.formats[lg.ver]
    n = len(lg.samples)
    r.shuffle(mixed.samples)
    for s in mixed.samples:
        s.level = r.choice([0, 1, 6, 9])
    mixed.samples += r.sample(mixed.samples, 2)
    odd = gen.sample(ver, r, tasks=r.choice([0, 2, 9]))
    if prop not in ("C12", "C13", "C16", "C17", "C14", "C15"):
        mixed.samples.insert(r.randrange(len(mixed.samples) + 1), odd)
    logs, traces = [lg, mixed], []

    def add(ops, *streams, **kw):
        traces.append(dict(trace(f"{name}-{len(traces)}", ops, *streams), **kw))

    parts = lambda i, s: [("hdr", "header", 0), ("rec", "record", 0), ("ss", "sstat", 0)] + [("ts", "tstat", x + 1) for x in range(s.tasks)] \
        + [("cg", "cstat", x + 1) for x in range(len(s.cg or ()))]
    read = lambda g: [["header", 1], ["iter", 1]] + [["next", 1]] * len(g.samples)

    if prop == "C01":
        i = r.randrange(n) + 1
        pick = lambda fl: sorted({0, 1, fl["c"] - 1} & set(range(fl["c"])))
        for p, part, x in parts(i, lg.samples[i - 1]):
            leaves = list(lay.leaves(f[part], pick))
            leaves = r.sample(leaves, min(len(leaves), 1500))
            for o in range(0, len(leaves), 400):
                add([["header", 1]] + [["iter", 1]] + [["next", 1]] * i + [["attrs", 1, i, p, x, leaves[o : o + 400]]], stream(1))
    elif prop in ("C04", "C05", "C06"):
        for k in (1, 2):
            add(full_run(), stream(k))
            add(full_run(False, hdr=True), stream(k, src="file"))
            add([["header", 1]] + [["steps", 1]] * len(logs[k - 1].samples), stream(k))
        i = r.randrange(n) + 1
        ops = []
        for p, part, x in parts(i, lg.samples[i - 1]):
            leaves = list(lay.leaves(f[part], lambda fl: [0, fl["c"] - 1]))
            if p == {"C04": "ss", "C05": "ts", "C06": "cg"}[prop]:
                ops.append(["attrs", 1, i, p, x, r.sample(leaves, min(len(leaves), 40))])
            if p == "cg":
                ops.append(["pids", 1, i, x])
        add(read(lg) + ops, stream(1))
    elif prop == "C07":
        cuts = sorted({480 + r.randrange(len(lg.data) - 480) for _ in range(40)} | {x + d for b in lg.bounds for x in b for d in (-1, 0, 1) if 480 <= x + d <= len(lg.data)})
        for c in cuts:
            raise_ = r.choice([None, False])
            add(full_run(raise_, hdr=r.random() < 0.3), stream(1, c, src=r.choice(["mem", "file"])))
            if r.random() < 0.3:
                add(full_run(raise_), stream(1, c, True, "gz"))
    elif prop == "C08":
        from . import damage
        for b in range(4 if odd.cg is not None and lay.cgroups(ver) else 2):
            for k in range(3):
                g = log(name, same=False)
                i = r.randrange(n)
                if g.samples[i].lens[b] == 0:
                    continue
                g.samples[i].damage[b] = lambda z: damage.surely(z, r)
                logs.append(g)
                for raise_ in (None, False):
                    add(full_run(raise_, hdr=k == 1), stream(len(logs)))
    elif prop == "C09":
        for lim in (0, 1, 2, n - 1, n, n + 1):
            add([["header", 1], ["iter", 1, {"limit": lim}], ["all", 1], ["iter", 1, {"limit": 2}], ["all", 1, 2], ["iter", 1], ["all", 1, 3]], stream(1))
    elif prop == "C10":
        for _ in range(4):
            ops, left, its = [["header", 1]], n, 0
            while left > 0:
                if r.random() < 0.5:
                    ops.append(["steps", 1])
                    left -= 1
                else:
                    its += 1
                    k = r.randrange(1, left + 1)
                    ops += [["iter", 1]] + [["next", 1, its]] * k
                    left -= k
            add(ops, stream(1))
    elif prop == "C11":
        other = r.choice(names())
        logs.append(log(other))
        for _ in range(3):
            turns = [["header", 1], ["header", 2], ["iter", 1], ["iter", 2]]
            more = [["next", 1]] * n + [["next", 2]] * len(logs[2].samples)
            r.shuffle(more)
            add(turns + more + [["others"]], stream(1), stream(3))
        add([["header", 1], ["header", 2], ["iter", 1], ["iter", 2]] + [["next", 1], ["next", 2]] * n + [["mutate", 1, 1, "ss"], ["mutate", 2, 2, "rec"], ["others"]], stream(1), stream(1))
    elif prop in ("C12", "C13"):
        for i in ((1, n) if prop == "C12" else (2,)):
            s = lg.samples[i - 1]
            # Repeatedly converted: nothing changes.
            add(read(lg) + [["dict", 1, i, p, x] for p, _, x in parts(i, s)] + [["held", 1, i]], stream(1))
    elif prop in ("C14", "C15"):
        labels = LABELS14 if prop == "C14" else LABELS15
        for k in (1, 2):
            m = len(logs[k - 1].samples)
            add(read(logs[k - 1]) + [["rows", 1, i + 1, lab] for i in range(m) for lab in labels], stream(k))
    elif prop == "C16":
        for k, (ts, cs, pretty) in enumerate([(True, True, False), (False, False, True), (True, False, True), (False, True, False)]):
            add([["cli", [[1, "atop.log" + ".gz" * (k % 2)]], {"ts": ts, "cs": cs, "pretty": pretty, "style": r.randrange(16), "sub": k == 0 and seed % 7 == 0}]], stream(1))
        logs.append(log(r.choice(names()), most=2))
        add([["cli", [[1, "a.gz"], [2, "b"], [3, "c.gz"]], {"ts": True, "cs": True}]], stream(3), stream(1, r.randrange(480, len(lg.data))), stream(2))
    elif prop == "C17":
        logs.append(log("atop_1_26"))
        logs.append(log(r.choice(names()), most=2))
        labels = [x for x in LABELS14 + LABELS15 if x != "PRD"]
        for _ in range(3):
            order = r.sample([[1, "a.gz"], [2, "b"], [3, "c.gz"]], 3)
            add([["cli", order, r.sample(labels, r.choice([1, 2, 4])), {"style": r.randrange(16)}]], stream(1), stream(3), stream(4))
        add([["cli", [[1, "all"]], r.sample(labels, len(labels))]], stream(3))
    elif prop == "C18":
        sizes = lambda: r.choice([[1, 100, 5000], [95, 97], [480, 96], [4096], [3, 100000]])
        for src in ({"src": "mem"}, {"src": "file"}, {"src": "raw"}, {"src": "gz"}, {"src": "gzfile"}, {"src": "pieces", "sizes": sizes(), "buf": 96}, {"src": "pipe", "sizes": sizes()}):
            for k, cut in ((1, -1), (1, r.randrange(480, len(lg.data))), (2, -1)):
                add(full_run(r.choice([None, False]), hdr=r.random() < 0.5), stream(k, cut, **src))
    return {"logs": logs, "traces": traces, "seconds": 60}
