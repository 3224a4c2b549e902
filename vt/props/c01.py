"""Every field of every structure of every version as an attribute: all leaves, array elements first, second, last
and random ones (thorough: all elements), over several byte patterns and constant fills."""

from .. import gen, layout
from ..content import Content
from ..gen import rng
from ..logs import Log, Sample, header
from ..run import stream

CHUNK = 400


def models(tier):
    return [("MCFormat", "MCFormat")]


def batches(tier, seed):
    return [(v, seed, tier, k) for v in gen.versions() for k in range(4 if tier == "quick" else 8)]


def make(arg):
    ver, seed, tier, k = arg
    r = rng("C01", ver, seed, k)
    lay = layout.load()
    fill = {2: -255, 3: -128}.get(k)
    s = Sample(ver, 0, 3, [(8, 1), (24, 2), (0, 1)])
    for c in (s.rec, s.ss, s.ts, s.cs, s.pl):
        c.seed = r.randrange(1, 60000) if fill is None else fill
    hdr = header(ver, seed=r.randrange(1, 60000) if fill is None else fill)
    logs = [Log(ver, [s], hdr=hdr)]

    def pick(f):
        if tier == "thorough" and fill is None and k in (0, 7):
            return range(f["c"])
        some = {0, 1, 2, f["c"] - 1} | {r.randrange(f["c"]) for _ in range(2 if f["t"] not in lay.prims else 5)}
        if tier == "thorough":
            some |= {r.randrange(f["c"]) for _ in range(20)}
        return sorted(x for x in some if x < f["c"])

    ops = []
    for p, xs in (("hdr", [0]), ("rec", [0]), ("ss", [0]), ("ts", [1, 2, 3]), ("cg", [1, 2, 3])):
        kind = {"hdr": "header", "rec": "record", "ss": "sstat", "ts": "tstat", "cg": "cstat"}[p]
        if kind not in s.f:
            continue
        for x in xs:
            leaves = list(lay.leaves(s.f[kind], pick))
            for n in range(0, len(leaves), CHUNK):
                ops.append(["attrs", 1, 1, p, x, leaves[n : n + CHUNK]])
    traces = []
    for n in range(0, len(ops), 8):
        # Read by the iterator and with the individual functions.
        read = [["iter", 1], ["next", 1]] if n // 8 % 2 == 0 else [["steps", 1]]
        traces.append({"id": f"{ver}.{k}.{n}", "str": [stream()], "ops": [["header", 1]] + read + ops[n : n + 8]})
    if "cstat" in s.f:
        traces.append({"id": f"{ver}.{k}.pids", "str": [stream()],
                       "ops": [["header", 1], ["iter", 1], ["next", 1]] + [["pids", 1, 1, x] for x in (1, 2, 3)]})
    return {"logs": logs, "traces": traces}
