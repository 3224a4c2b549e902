"""Every limit on logs of few samples, batches of limited reads on one stream, and the default limit on logs of
more than 86400 samples; histories also generated from the specification by TLC."""

from .. import gen, spec_gen
from ..gen import rng, sample, small, trace
from ..logs import Log
from ..run import stream

LIMIT = 86400


def models(tier):
    return [("MCReader", "MCLimit2" if tier == "quick" else "MCLimit")]


def batches(tier, seed):
    res = [("long", "1.26", seed, k) for k in ([0, 1, 4] if tier == "quick" else range(5))]
    res += [("own", v, seed, tier) for v in gen.versions()]
    return res + spec_gen.batches("hist", tier, seed)


def make(arg):
    if arg[0] == "spec":
        return spec_gen.make(arg)
    if arg[0] == "long":
        return long(arg)
    _, ver, seed, tier = arg
    r = rng("C09", ver, seed)
    logs, traces = [], []
    for n in range(0, 5 if tier == "quick" else 9):
        lg = small(ver, r, n, tasks=1, cgroups=[(8, 1)])
        logs.append(lg)
        for limit in range(0, n + 3):
            hdr = (n + limit) % 2 == 0
            raise_ = [None, False][limit % 2]
            ops = ([] if hdr else [["header", 1]]) + [["iter", 1, {"limit": limit, "hdr": hdr, "raise_": raise_}], ["all", 1]]
            # Behind the limit the stream goes on: whatever is left comes next.
            if limit <= n:
                ops += [] if hdr else [["iter", 1, {"raise_": raise_}], ["all", 1, 2]]
            traces.append(trace(f"{ver}-{n}-{limit}", ops, stream(n + 1)))
    # Samples of all kinds: equal ones, with nothing in them, with unusual records.
    for k in range(12 if tier == "quick" else 60):
        smps = []
        for x in range(r.choice([2, 3, 4, 6])):
            if smps and r.random() < 0.4:
                smps.append(r.choice(smps))
            else:
                smps.append(sample(ver, r, tasks=r.choice([0, 0, 0, 1, 3]), rich=False, cgroups=r.choice([None, [], [], [(8, 0)], [(8, 2)]])))
        logs.append(Log(ver, smps))
        limit = r.randrange(len(smps) + 2)
        ops = [["header", 1], ["iter", 1, {"limit": limit}], ["all", 1]] + ([["iter", 1, {"limit": 1}], ["all", 1, 2], ["iter", 1], ["all", 1, 3]] if limit <= len(smps) else [])
        traces.append(trace(f"{ver}-kinds{k}", ops, stream(len(logs))))
    # Batches of every size.
    n = 6
    logs.append(small(ver, r, n, tasks=1, cgroups=[]))
    for size in range(1, n + 1):
        ops = [["header", 1]]
        for k in range(n // size + 2):
            ops += [["iter", 1, {"limit": size}], ["all", 1, k + 1]]
        traces.append(trace(f"{ver}-batch{size}", ops, stream(len(logs), src=["mem", "file", "gz"][size % 3])))
    # Batches with a zero limit in between, and direct calls.
    ops = [["header", 1], ["iter", 1, {"limit": 0}], ["all", 1, 1], ["iter", 1, {"limit": 2}], ["all", 1, 2], ["steps", 1],
           ["iter", 1, {"limit": 1}], ["all", 1, 3], ["iter", 1, {"limit": 0}], ["all", 1, 4], ["iter", 1], ["all", 1, 5]]
    traces.append(trace(f"{ver}-zero", ops, stream(len(logs))))
    # A log that is cut behind the limit does not matter.
    lg = logs[-1]
    cut = lg.bounds[3][1] + 5
    for raise_ in (None, False):
        traces.append(trace(f"{ver}-cut-{raise_}", [["header", 1], ["iter", 1, {"limit": 3, "raise_": raise_}], ["all", 1]], stream(len(logs), cut)))
    return {"logs": logs, "traces": traces}


def long(arg):
    _, ver, seed, k = arg
    r = rng("C09long", ver, seed, k)
    s = sample(ver, r, tasks=0, rich=False, level=9, record={})
    n = LIMIT + [3, 0, -1, 1, 2][k]
    ops = [["header", 1], ["drain", 1]]
    if k == 0:
        ops += [["drain", 1, 2], ["drain", 1]]     # a further read goes on where the limit ended the first
    if k == 4:
        ops = [["header", 1], ["drain", 1, r.choice([LIMIT + 1, 100000, 2000000000])], ["drain", 1]]     # a limit beyond the one by default
    data = Log(ver, [s], rep=n)
    return {"logs": [data], "traces": [trace(f"{ver}-long{k}", ops, stream())], "seconds": 400}
