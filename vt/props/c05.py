"""Task lists of many lengths (0 to thousands) with all other counters of the record at odds with them, for every
version; every task identified by its bytes, some tasks' fields checked one by one."""

from .. import gen, layout
from ..gen import rng, sample, trace
from ..logs import Log
from ..run import stream


def models(tier):
    return [("MCReader", "MCFrame")]


def batches(tier, seed):
    res = [(v, seed + k, tier) for v in gen.versions() for k in range(1 if tier == "quick" else 6)]
    new = [v for v in gen.versions() if v != "1.26"]
    return res + [("big", v, seed) for v in (["1.26", new[seed % len(new)]] if tier == "quick" else gen.versions())]


COUNTERS = ["npresent", "nexit", "ntrun", "ntslpi", "ntslpu", "nzombie", "totproc", "totrun", "totslpi", "totslpu", "totzomb",
            "nactproc", "ntask", "noverflow", "nlist", "ndeviat"]


def counters(s, r, how):
    """Give every counter but the one that matters some other value."""
    lay = layout.load()
    key = "nlist" if s.ver == "1.26" else "ndeviat"
    for n in COUNTERS:
        f = lay.fields[s.f["record"]].get(n)
        if f is None or n == key:
            continue
        top = (1 << 8 * lay.width(f["t"])) - 1
        s.counts[n] = {"zero": 0, "less": max(0, s.tasks - 1), "more": s.tasks + 1, "top": top, "one": 1,
                       "any": r.randrange(top)}[how if how != "mix" else r.choice(["zero", "less", "more", "top", "one"])]


def make(arg):
    if arg[0] == "big":
        return big(arg)
    ver, seed, tier = arg
    r = rng("C05", ver, seed)
    lay = layout.load()
    logs, traces = [], []
    hows = ["zero", "less", "more", "top", "one", "any", "mix", "mix"]
    counts = [0, 1, 2, 3, 7, 255, 256, 257, 1000] + ([4099, 20000] if tier == "thorough" else [])
    for n, t in enumerate(counts):
        smps = []
        for k in range(3):
            s = sample(ver, r, tasks=t if k == 1 else r.choice([0, 1, 4]), rich=t < 8, level=1 if t > 500 else None, record={},
                       cgroups=r.choice([None, [], [(8, 2)]]))
            counters(s, r, hows[(n + k) % len(hows)])
            smps.append(s)
            if k == 1:
                size = lay.size(s.f["tstat"])
                for x in range(t) if t < 300 else r.sample(range(t), 200):
                    s.ts.poke(x * size + r.randrange(size - 8), x.to_bytes(4, "little") + b"\x5a")
        logs.append(Log(ver, smps))
        leaves = list(lay.leaves(smps[1].f["tstat"], lambda f: range(f["c"])))
        look = []
        for x in sorted({1, 2, t // 2, t - 1, t}):
            if 1 <= x <= t:
                look.append(["attrs", 1, 2, "ts", x, leaves])
        read = [["iter", 1], ["next", 1], ["next", 1]] if n % 2 else [["steps", 1], ["steps", 1]]
        traces.append(trace(f"{ver}-{t}", [["header", 1]] + read + look + [["iter", 1], ["all", 1, 2 if n % 2 else 1]], stream(len(logs))))
    # Every counter's way with the same list.
    for how in hows[:7]:
        for t in (0, 2, 5):
            s = sample(ver, r, tasks=t, rich=False, record={})
            counters(s, r, how)
            logs.append(Log(ver, [s, sample(ver, r, tasks=1, rich=False)]))
            traces.append(trace(f"{ver}-{how}-{t}", gen.full_run(hdr=True), stream(len(logs))))
            traces.append(trace(f"{ver}-{how}-{t}s", [["header", 1], ["steps", 1], ["iter", 1], ["all", 1]], stream(len(logs))))
    # Everyday lists: processes and their threads, equal ids, equal tasks, tasks that ended, in all sorts of orders.
    for n in range(24 if tier == "quick" else 200):
        smps = [sample(ver, r, tasks=r.choice([2, 2, 3, 4, 6, 9]), rich=False, record={}) for _ in range(2)]
        for s in smps:
            gen.people(s, r)
            counters(s, r, r.choice(hows))
        logs.append(Log(ver, smps))
        traces.append(trace(f"{ver}-people{n}", gen.full_run() if n % 2 else [["header", 1], ["steps", 1], ["steps", 1]], stream(len(logs))))
    # More in the block than the record declares.
    for n, (t, more) in enumerate([(0, 1), (1, 1), (2, 5), (3, 300)]):
        s = sample(ver, r, tasks=t + more, rich=n % 2 == 0, record={})
        s.tasks = t
        counters(s, r, "more")
        logs.append(Log(ver, [s, sample(ver, r, tasks=1, rich=False)]))
        traces.append(trace(f"{ver}-surplus{n}", gen.full_run(hdr=n % 2 == 0), stream(len(logs))))
        traces.append(trace(f"{ver}-surplus{n}s", [["header", 1], ["steps", 1], ["steps", 1]], stream(len(logs))))
    # Each counter on its own.
    names = [n for n in COUNTERS if n in lay.fields[lay.formats[ver]["record"]]]
    for n in names:
        s = sample(ver, r, tasks=3, rich=False, record={})
        counters(s, r, "zero")
        if n in s.counts:
            s.counts[n] = 2
        logs.append(Log(ver, [s]))
        traces.append(trace(f"{ver}-only-{n}", gen.full_run(), stream(len(logs))))
    return {"logs": logs, "traces": traces}


def big(arg):
    """More tasks than 16 bits count."""
    _, ver, seed = arg
    r = rng("C05big", ver, seed)
    t = 65537
    s = sample(ver, r, tasks=t, rich=False, level=1, record={})
    size = layout.load().size(s.f["tstat"])
    for x in range(0, t, 2003):
        s.ts.poke(x * size + 16, x.to_bytes(4, "little"))
    leaves = list(layout.load().leaves(s.f["tstat"], lambda f: range(f["c"])))
    ops = [["header", 1], ["iter", 1], ["next", 1]] + [["attrs", 1, 1, "ts", x, leaves] for x in (1, 2004, 65536, 65537)] + [["next", 1]]
    return {"logs": [Log(ver, [s])], "traces": [trace(f"{ver}-big", ops, stream())], "seconds": 60}
