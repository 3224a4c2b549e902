"""The command: logs of all versions, plain and gzip, complete, empty, cut and damaged, alone and in lists with
repetitions, with all combinations of the options; every printed entry compared with the sample it is about."""

import gzip

from .. import damage, gen, layout
from ..gen import rng, sample, trace
from ..logs import Log, gz, header
from ..run import stream
from .c12 import limiters, set_limiters
from .c13 import text


def models(tier):
    return [("MCCommand", "MCCommand3")]


def batches(tier, seed):
    n = 1 if tier == "quick" else 6
    return [("own", v, seed, k, tier) for k in range(n) for v in gen.versions()] + [("long", v, seed, tier) for v in gen.versions()] + [("alike", seed, k, tier) for k in range(2 if tier == "quick" else 8)] + [("lists", seed, k, tier) for k in range(5 if tier == "quick" else 40)]


def one(ver, r, lims, **kw):
    lay = layout.load()
    kw.setdefault("cgroups", r.choice([None, [], [(8, 2), (16, 0), (0, 1)], [(24, 1)]]))
    s = sample(ver, r, tasks=r.choice([0, 1, 2, 3]), record={} if r.random() < 0.5 else None, rich=r.random() < 0.5, **kw)
    set_limiters(s, r, 150, lims, lambda *a: r.choice([0, 0, 0, 1]))
    # Texts in the tasks.
    for x in range(s.tasks):
        v = s.view("ts", x)
        for p in (["gen", "name"], ["gen", "cmdline"]):
            v.set(*p, text(r, lay.at(s.f["tstat"], *p)[3]))
    return s


def build(ver, r, n, lims):
    return Log(ver, [one(ver, r, lims) for _ in range(n)], hdr=header(ver, seed=r.randrange(1, 60000) if r.random() < 0.5 else 0))


OPTIONS = [(ts, cs, pretty) for ts in (False, True) for cs in (False, True) for pretty in (False, True)]


def opts(n, **kw):
    ts, cs, pretty = OPTIONS[n % 8]
    return {"ts": ts, "cs": cs, "pretty": pretty, "style": n // 3, **kw}


def members(data):
    """A gzip file of two members."""
    k = len(data) // 3
    return gzip.compress(data[:k], 1) + gzip.compress(data[k:], 9)


def make(arg):
    return {"own": own, "lists": lists, "long": long, "alike": alike}[arg[0]](arg)


def long(arg):
    """More samples than fit in memory pages, buffers, hours or days: all are printed."""
    _, ver, seed, tier = arg
    r = rng("C16long", ver, seed)
    smps = [sample(ver, r, tasks=n % 3, rich=False, level=9, cgroups=[None, [], [(8, 2)]][n % 3]) for n in range(5)]
    lims = limiters(layout.load().formats[ver]["sstat"])
    for s in smps:
        set_limiters(s, r, 100, lims, lambda *a: 0)
    n = 2000 * (1 if tier == "quick" else 3)
    logs = [Log(ver, smps, rep=n // 5), Log(ver, [smps[1]], rep=257)]
    traces = []
    for n, (h, name) in enumerate([(1, "long"), (1, "long.gz"), (2, "long.gz")]):
        o = {"ts": n != 0, "cs": n == 0, "pretty": n == 2, "few": 12, "style": r.randrange(16)}
        traces.append(trace(f"{ver}-long{n}", [["cli", [[1, name]], o]], stream(h)))
    return {"logs": logs, "traces": traces, "seconds": 200}


def own(arg):
    _, ver, seed, k, tier = arg
    r = rng("C16", ver, seed, k)
    lims = limiters(layout.load().formats[ver]["sstat"])
    logs = [build(ver, r, 2, lims), build(ver, r, 0, lims), build(ver, r, 1, lims), build(ver, r, 3, lims)]
    traces = []
    plain, zipped = "log", "log.gz"
    # Every combination of options, plain and gzip.
    for n in range(8):
        g = n % 4 in (1, 2)
        traces.append(trace(f"{ver}-{k}-opt{n}", [["cli", [[1, zipped if g else plain]], opts(n, sub=n % 8 == (3 + k) % 8)]], stream(1 if n % 3 else 3)))
    # No sample at all; a repeated file; plain and gzip of the same.
    traces.append(trace(f"{ver}-{k}-none", [["cli", [[1, "empty"]], opts(r.randrange(8))]], stream(2)))
    traces.append(trace(f"{ver}-{k}-same", [["cli", [[1, "a/x"], [1, "a/x"], [1, "b.gz"]], opts(r.randrange(8))]], stream(3)))
    traces.append(trace(f"{ver}-{k}-members", [["cli", [[1, "two.gz"]], opts(r.randrange(8))]], stream(1, zip=members)))
    # Other files at the same place later on.
    for g in ("", ".gz"):
        ops = [["cli", [[h, "log" + g]], opts(r.randrange(8), fresh=True)] for h in r.sample([1, 2, 3], 3)]
        traces.append(trace(f"{ver}-{k}-again{g}", ops, stream(1), stream(3), stream(4)))
    # Cut logs, plain and gzip.
    lg = logs[3]
    spots = [(x, 0) for x in range(3)] + [(1, b) for b in range(1, len(lg.bounds[1]) - 1)] + [(2, b) for b in range(1, len(lg.bounds[2]) - 1)]
    for n, (x, b) in enumerate(spots if tier == "thorough" else r.sample(spots, 5)):
        lo, hi = lg.bounds[x][b], lg.bounds[x][b + 1]
        if hi - lo < 2:
            continue
        c = r.choice([lo, lo + 1, hi - 1, r.randrange(lo, hi)])
        g = n % 2 == 1
        traces.append(trace(f"{ver}-{k}-cut{c}", [["cli", [[1, "cut.gz" if g else "cut"]], opts(r.randrange(8))]], stream(4, c, g)))
        if n == 0:
            traces.append(trace(f"{ver}-{k}-zcut{c}", [["cli", [[1, "whole.gz"]], opts(r.randrange(8))]], stream(4, c)))
    # A damaged sample behind an intact one.
    s = one(ver, r, lims)
    s.damage[r.choice([0, 1])] = lambda z: damage.surely(z, r)
    logs.append(Log(ver, [one(ver, r, lims), s, one(ver, r, lims)]))
    traces.append(trace(f"{ver}-{k}-bad", [["cli", [[1, "bad"], [1, "bad.gz"]], opts(r.randrange(8))]], stream(len(logs))))
    # End mark.
    e = sample(ver, r, tasks=0, cgroups=None, rich=False)
    e.endmark = True
    logs.append(Log(ver, [one(ver, r, lims), e, one(ver, r, lims)]))
    traces.append(trace(f"{ver}-{k}-mark", [["cli", [[1, "mark"]], opts(r.randrange(8))]], stream(len(logs))))
    return {"logs": logs, "traces": traces, "seconds": 60}


def alike(arg):
    """Files of one version in a command, alike in all but a detail: a field of the header, of a record, a counter, a name; or
    in the numbers of samples only."""
    _, seed, k, tier = arg
    r = rng("C16alike", seed, k)
    lay = layout.load()
    logs, traces = [], []
    for ver in gen.versions()[k % 2 :: 2]:
        f = lay.formats[ver]
        lims = limiters(f["sstat"])
        fields = [x for x in lay.fields[f["header"]] if lay.fields[f["header"]][x]["k"] == "one" and lay.fields[f["header"]][x]["t"] in lay.prims]
        free = [x for x in ("hertz", "pagesize", "supportflags", "osrel", "osvers", "ossub", "pidwidth") if x in fields]
        hs, smp, what = r.randrange(1, 60000), one(ver, r, lims), r.choice(free)
        bits = 8 * lay.width(lay.fields[f["header"]][what]["t"])
        hdr, hdr2 = header(ver, seed=hs), header(ver, seed=hs, **{what: r.randrange(1, 1 << (bits - 1))})
        n0 = len(logs)
        logs += [Log(ver, [smp], hdr=hdr), Log(ver, [smp], hdr=hdr2), Log(ver, [smp, smp], hdr=hdr)]
        for n, picks in enumerate([(1, 2), (2, 1, 2), (3, 1), (2, 3, 1)]):
            files = [[j + 1, f"{j}{r.choice(NAMES)}" + (".gz" if r.random() < 0.3 else "")] for j in range(len(picks))]
            traces.append(trace(f"{ver}-{k}-alike{n}", [["cli", files, opts(r.randrange(8))]], *[stream(n0 + p) for p in picks]))
    return {"logs": logs, "traces": traces, "seconds": 60}


NAMES = ["a", "b.raw", "log 1", "x'y\"z", "d\u00e4t\u00e9", "atop_20260101", "dir/f", "log.1", "u\u4e2d", "/log", "/log"]


def lists(arg):
    """Files of different versions in all sorts of orders."""
    _, seed, k, tier = arg
    r = rng("C16lists", seed, k)
    vers = gen.versions()
    r.shuffle(vers := list(vers))
    logs = [build(v, r, 1 + n % 2, limiters(layout.load().formats[v]["sstat"])) for n, v in enumerate(vers)]
    traces = []
    for n in range(8 if tier == "quick" else 12):
        picks = [1 + (2 * n + j) % len(vers) for j in range(2)] + ([r.randrange(len(vers)) + 1] if n % 2 else [])
        strs, files = [], []
        for p in picks:
            lg = logs[p - 1]
            cut = r.random() < 0.3
            g = r.random() < 0.4
            strs.append(stream(p, r.randrange(480, len(lg.data)) if cut else -1, cut and g))
            files.append([len(strs), f"{len(strs)}{r.choice(NAMES)}" + (".gz" if g else "")])
        # Streams of TraceAtop: at most three; repeat one.
        if len(strs) < 3:
            files.append(list(files[0]))
        r.shuffle(files)
        traces.append(trace(f"list{k}-{n}", [["cli", files, opts(r.randrange(8), sub=n == 0)]], *strs))
    return {"logs": logs, "traces": traces, "seconds": 60}
