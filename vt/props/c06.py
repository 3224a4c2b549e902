"""Cgroup lists: name lengths, process counts (also none) and list lengths of all sorts, sections that are empty or
were not written, for 2.11 and 2.12; and logs of older versions, which have none."""

from .. import gen, layout
from ..gen import rng, sample, trace
from ..logs import Log
from ..run import stream


def models(tier):
    return [("MCCgroups", "MCCgroups"), ("MCReader", "MCFrame")]


def batches(tier, seed):
    res = [(v, seed + k, tier) for v in gen.cg_versions() for k in range(4 if tier == "quick" else 24)]
    return res + [(v, seed, tier) for v in gen.versions() if v not in gen.cg_versions()]


def lists(r, tier):
    yield from ([], [(0, 0)], [(8, 0)], [(8, 1)], [(0, 1)], [(248, 3)], [(8, 0), (8, 0), (8, 0)], [(16, 0), (8, 5), (24, 0)],
                [(8, 5), (16, 0), (24, 0)], [(24, 0), (16, 0), (8, 5)], [(0, 1), (256, 2), (8, 3), (1, 1), (7, 2), (4096, 1)])
    yield [(8 * k, k) for k in range(12)]
    yield [(8 * (11 - k), k % 3) for k in range(12)]
    yield [(8, 1000), (16, 0), (8, 257), (8, 1)]
    yield [(r.randrange(0, 260), r.choice([0, 0, 1, 2, 3, 30])) for _ in range(40)]
    yield [(8 * r.randrange(1, 6), r.choice([0, 1, 2])) for _ in range(257 if tier == "quick" else 2000)]
    for _ in range(8):
        yield [(r.randrange(0, 300), r.choice([0, 0, 1, 2, 3, 30])) for _ in range(r.randrange(1, 9))]


def make(arg):
    ver, seed, tier = arg
    r = rng("C06", ver, seed)
    lay = layout.load()
    logs, traces = [], []
    cg = lay.cgroups(ver)
    for n, cl in enumerate(lists(r, tier) if cg else [None] * 6):
        a = sample(ver, r, rich=n % 2 == 0, cgroups=cl, tasks=r.choice([0, 1, 3]), record={})
        if cg:
            # Names and paddings behind the fixed parts, and ids of their own.
            o = 0
            for x, (name, _) in enumerate(cl):
                o += lay.size(a.f["cstat"])
                if name and x < 60:
                    a.cs.poke(o, bytes(r.randrange(1, 256) for _ in range(min(name, 40))))
                o += name
            for p in range(min(200, a.lens[3] // 4)):
                a.pl.poke(4 * p, r.choice([p + 1, 4194304, 0, 2147483647, 255 + p]).to_bytes(4, "little"))
        b = sample(ver, r, rich=False, cgroups=gen.cg_lists(r) if r.random() < 0.7 else None)
        logs.append(Log(ver, [b, a, sample(ver, r, rich=False)]))
        look = []
        if cg:
            leaves = list(lay.leaves(a.f["cstat"], lambda f: range(f["c"])))
            xs = sorted({1, 2, 3, len(cl) // 2, len(cl) - 1, len(cl)} & set(range(1, len(cl) + 1)))
            for x in xs:
                look += [["attrs", 1, 2, "cg", x, leaves], ["pids", 1, 2, x]]
        read = [["iter", 1], ["next", 1], ["next", 1]] if n % 2 else [["steps", 1], ["steps", 1]]
        traces.append(trace(f"{ver}-{n}", [["header", 1]] + read + look + [["iter", 1], ["all", 1, 2 if n % 2 else 1]], stream(len(logs))))
        traces.append(trace(f"{ver}-{n}-iter", gen.full_run(hdr=True), stream(len(logs))))
    # Sections not written: neither, or no process ids at all.
    for k, (cl, omit) in enumerate([(None, set()), ([(8, 0), (16, 0)], {3}), ([(8, 0), (16, 0)], set()), ([], {3}), ([], {2, 3}), ([], set())]):
        smps = [sample(ver, r, rich=False, cgroups=[(8, 2)]), sample(ver, r, rich=False, cgroups=cl), sample(ver, r, rich=False, cgroups=[(16, 1)])]
        if cg:
            smps[1].omit = omit
        logs.append(Log(ver, smps))
        traces.append(trace(f"{ver}-omit{k}", gen.full_run(), stream(len(logs))))
        traces.append(trace(f"{ver}-omit{k}s", [["header", 1]] + [["steps", 1]] * 3, stream(len(logs))))
        logs.append(Log(ver, smps[1:2]))
        traces.append(trace(f"{ver}-alone{k}", gen.full_run(False, True), stream(len(logs))))
    # Very many processes.
    for k, cl in enumerate([[(8, 1025), (0, 2), (16, 4097), (8, 1)], [(8, 70000), (8, 3)], [(0, 32768), (0, 32769), (8, 0), (24, 5)],
                           [(8 * (x % 3), x % 97 == 0) for x in range(4099)], [(0, 0)] * 1030 + [(8, 2)] * 3] if cg else []):
        s = sample(ver, r, rich=False, tasks=1, cgroups=cl, level=1, record={})
        for p in r.sample(range(s.lens[3] // 4), min(s.lens[3] // 4, 400)):
            s.pl.poke(4 * p, r.randrange(1, 1 << 22).to_bytes(4, "little"))
        logs.append(Log(ver, [s, sample(ver, r, rich=False, cgroups=[(8, 2)])]))
        traces.append(trace(f"{ver}-crowd{k}", gen.full_run() if k % 2 else [["header", 1], ["steps", 1], ["steps", 1]], stream(len(logs))))
    # More in the blocks than the record declares.
    for k in range(6 if cg else 0):
        s = sample(ver, r, rich=k % 2 == 0, tasks=1, cgroups=[(8, 1), (16, 2), (24, 3)], record={})
        if k < 3:
            s.counts["ncgroups"] = k
        else:
            s.lens[k - 2 if k < 5 else 3] += [0, 0, 0, 77, 400, 40][k]
        logs.append(Log(ver, [s, sample(ver, r, rich=False)]))
        traces.append(trace(f"{ver}-surplus{k}", gen.full_run(), stream(len(logs))))
    # Everyday lists: equal and almost equal cgroups, in all sorts of orders.
    for k in range(16 if cg else 0):
        s = sample(ver, r, rich=False, tasks=1, cgroups=[(r.choice([0, 8, 8, 16]), r.choice([0, 1, 1, 2])) for _ in range(r.choice([2, 3, 5]))])
        gen.people(s, r)
        logs.append(Log(ver, [s, sample(ver, r, rich=False)]))
        traces.append(trace(f"{ver}-people{k}", gen.full_run() if k % 2 else [["header", 1], ["steps", 1], ["steps", 1]], stream(len(logs))))
    # Task counts and cgroup counts that differ, other cgroup counters of no influence.
    for k in range(4):
        s = sample(ver, r, rich=False, tasks=5, cgroups=[(8, 1)] * 3)
        if cg:
            s.counts["ncgpids"] = [0, 1, 100, 0xFFFFFFFF][k]
        logs.append(Log(ver, [s, s]))
        traces.append(trace(f"{ver}-ncgpids{k}", gen.full_run(), stream(len(logs))))
    return {"logs": logs, "traces": traces}
