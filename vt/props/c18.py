"""The same logs (complete, cut, damaged, empty, with an end mark) of every version from every kind of source: memory,
buffered and unbuffered files, gzip files and members, sources that cannot seek and deliver arbitrary pieces, pipes; and a
writer that delivers a log part by part, of which every part must be readable as soon as it is there."""

from .. import damage, gen, layout, spec_gen
from ..gen import rng, sample, trace
from ..logs import Log
from ..run import stream
from .c07 import run_of


def models(tier):
    return [("MCReader", "MCFrame" if tier == "quick" else "MCReader")]


def batches(tier, seed):
    n = 1 if tier == "quick" else 8
    return [(v, seed, k, tier) for k in range(n) for v in gen.versions()]


def sources(r):
    sizes = lambda: r.choice([[1], [7, 1, 13], [1, 100, 5000], [95, 97], [480, 96], [4096], [3, 100000]])
    return [{"src": "mem"}, {"src": "file"}, {"src": "raw"}, {"src": "gz"}, {"src": "gzfile"},
            {"src": "pieces", "sizes": sizes(), "buf": r.choice([1, 16, 96, 8192, 200000])},
            {"src": "pieces", "sizes": sizes(), "buf": r.choice([1, 16, 96, 8192, 200000])},
            {"src": "pipe", "sizes": sizes()}]


def arriving(runner, lg, raise_, hdr, limit, part):
    """Iterator calls right after a sample has arrived."""
    n = len(lg.samples)
    runner.op_arrive(480)
    if not hdr and not runner.op_header(1):
        return
    runner.op_iter(1, limit, raise_, hdr)
    for i in range(n if limit is None else min(limit, n)):
        runner.op_arrive(lg.bounds[i][-1])
        if not runner.op_next(1):
            return
    if limit is not None and limit <= n:
        runner.op_next(1)       # the limit is reached: nothing more is needed
        if not hdr and limit < n:
            # The rest with direct calls, part by part.
            for i in range(limit, n):
                runner.op_arrive(lg.bounds[i][1])
                if not runner.op_record(1):
                    return
                runner.op_arrive(lg.bounds[i][2])
                if not runner.op_sstat(1):
                    return
                runner.op_arrive(lg.bounds[i][3])
                if not runner.op_tstat(1):
                    return
                if layout.load().cgroups(lg.ver):
                    runner.op_arrive(lg.bounds[i][-1])
                    if not runner.op_cstat(1):
                        return
    elif limit is None:
        runner.op_arrive(len(lg.data))
        runner.op_next(1)


def make(arg):
    ver, seed, k, tier = arg
    r = rng("C18", ver, seed, k)
    logs, traces = [], []
    base = [sample(ver, r, tasks=t, cgroups=c, rich=False, level=l) for t, c, l in
            ((2, [(8, 2), (0, 1)], 6), (0, None, 9), (r.choice([1, 30]), [], 6), (3, gen.cg_lists(r), r.choice([1, 9])))]
    if k % 2 == 0:
        base.append(sample(ver, r, tasks=5, rich=True, level=1))
    whole = Log(ver, base)
    logs.append(whole)
    bad = [sample(ver, r, tasks=1, rich=False) for _ in range(3)]
    bad[1].damage[r.randrange(4 if bad[1].cg else 2)] = lambda z: damage.surely(z, r)
    logs.append(Log(ver, bad))
    mark = [sample(ver, r, tasks=1, rich=False) for _ in range(3)]
    mark[2].endmark = True
    logs.append(Log(ver, mark))
    logs.append(Log(ver, []))
    n = 0
    cuts = sorted({r.choice([a, a + 1, b - 1, r.randrange(a, b)]) for offs in whole.bounds[:3] for a, b in zip(offs, offs[1:]) if b - a > 2})
    for g in (1, 2, 3, 4):
        for src in sources(r):
            traces.append(trace(f"{ver}-{k}-{g}-{n}", run_of(n % 4, [None, False][n % 2]), stream(g, **src)))
            n += 1
    for c in cuts if tier == "thorough" else r.sample(cuts, min(6, len(cuts))):
        for src in sources(r):
            torn = src["src"] in ("gz", "gzfile") and n % 2 == 0
            traces.append(trace(f"{ver}-{k}-cut{c}-{n}", run_of(n % 4, [None, False][n // 2 % 2]), stream(1, c, torn, **src)))
            n += 1
    # Direct calls from all sources; parts of a log with each.
    for src in sources(r):
        j = r.randrange(len(base) + 1)
        ops = [["header", 1]] + [["steps", 1]] * j + [["iter", 1, {"limit": r.choice([None, 1, 2])}], ["all", 1], ["iter", 1], ["all", 1, 2]]
        traces.append(trace(f"{ver}-{k}-mixed-{n}", ops, stream(1, **src)))
        n += 1
    for raise_ in (None, False):
        for hdr in (False, True):
            for limit in (None, 0, 1, 2, len(base)):
                for buf in (1, 64, 8192, 1 << 20):
                    traces.append({"id": f"{ver}-{k}-arriving-{raise_}-{hdr}-{limit}-{buf}", "str": [stream(1, src="arriving", buf=buf)],
                                   "script": arriving, "args": (whole, raise_, hdr, limit, 0)})
    return {"logs": logs, "traces": traces, "seconds": 60}
