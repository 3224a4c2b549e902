"""Logs of every version cut at every byte behind the header (and gzip files cut at every byte), read with both
settings; cut logs and calls also generated from the specification by TLC."""

import zlib

from .. import gen, spec_gen
from ..gen import rng, small, trace
from ..logs import gz
from ..run import stream


def models(tier):
    return [("MCReader", "MCFrame" if tier == "quick" else "MCReader")]


def batches(tier, seed):
    res = []
    for v in gen.versions():
        for part in range(2 if tier == "quick" else 8):
            res.append(("own", v, seed, part, tier))
        res.append(("gz", v, seed, 0, tier))
    return res + spec_gen.batches("cut", tier, seed)


def run_of(n, raise_):
    ops = [["header", 1]] if n % 2 else []
    return ops + [["iter", 1, {"raise_": raise_, "hdr": n % 2 == 0}], ["all", 1]]


def make(arg):
    if arg[0] == "spec":
        return spec_gen.make(arg)
    kind, ver, seed, part, tier = arg
    r = rng("C07", ver, seed)
    lg = small(ver, r, 2, tasks=2, cgroups=[(8, 3), (16, 1)])
    data, offs = lg.data, lg.bounds[-1]
    traces = []
    if kind == "own":
        parts = 2 if tier == "quick" else 8
        edges = {x + d for b in lg.bounds for x in b for d in (-2, -1, 0, 1, 2)}
        # Quick: every byte of the records and smaller blocks, every third of the rest; thorough: every byte.
        cuts = [c for c in range(480, len(data) + 1)
                if tier == "thorough" or c in edges or c % 4 == seed % 4 or any(a <= c <= b for a, b in zip(offs, offs[1:]) if b - a < 300)]
        for n, c in enumerate(cuts):
            if n % parts != part:
                continue
            for raise_ in (False, None) if n // parts % 2 else (None, False):
                traces.append(trace(f"{ver}-{c}-{raise_}", run_of(n // parts % 4 // 2, raise_), stream(1, c)))
        return {"logs": [lg], "traces": traces}
    z = gz(data)
    step = 5 if tier == "quick" else 1
    for c in range(20 + seed % step, len(z), step):
        d = zlib.decompressobj(31)
        avail = len(d.decompress(z[:c]))
        if avail < 480:
            continue
        for raise_ in (None, False):
            traces.append(trace(f"{ver}-gz{c}-{raise_}", run_of(c // step, raise_), stream(1, avail, True, "gzcut", cut=c)))
    return {"logs": [lg], "traces": traces}
