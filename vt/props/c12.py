"""Dictionaries of all structures of all versions, compared key by key and entry by entry: every list whose length
is recorded with counts 0, 1, some, capacity - 1, capacity, capacity + 1 and far more; also after JSON."""

from .. import gen, layout
from ..gen import rng, sample, trace
from ..logs import Log, header
from ..run import stream


def models(tier):
    return [("MCFormat", "MCFormat")]


def batches(tier, seed):
    return [(v, seed, tier, k) for v in gen.versions() for k in range(3 if tier == "quick" else 12)]


def limiters(s, path=()):
    """(path of the structure, name of the recorded length, capacity, number of leaves of an entry)."""
    lay = layout.load()
    res = []
    for f in lay.structs[s]["fields"]:
        if f["lim"]:
            n = 1 if f["t"] in lay.prims else sum(1 for _ in lay.leaves(f["t"], lambda g: range(g["c"])))
            res.append((path, f["lim"], f["c"], n))
        if f["k"] == "one" and f["t"] not in lay.prims:
            res += limiters(f["t"], path + (f["n"],))
    return res


def inner(lay, s, top=True):
    """Paths of the structures within a structure; one element of an array."""
    for n, f in lay.fields[s].items():
        if f["t"] not in lay.prims:
            p = [n] + ([f["c"] - 1] if f["k"] == "arr" else [])
            yield p
            yield from (p + q for q in inner(lay, f["t"]))


def set_limiters(s, r, budget, lims, choose):
    """Poke a count for every list; lists that would need too much of the budget get a small count."""
    for path, lim, cap, leaves in lims:
        n = choose(path, lim, cap)
        if min(n, cap) * leaves > budget:
            n = r.choice([0, 1, 2, 3])
        budget -= min(n, cap) * leaves
        s.view("ss").set(*path, lim, n)


def make(arg):
    ver, seed, tier, k = arg
    r = rng("C12", ver, seed, k)
    lay = layout.load()
    lims = limiters(lay.formats[ver]["sstat"])
    logs, traces = [], []

    def add(id_, smps, ops):
        logs.append(Log(ver, smps, hdr=header(ver, seed=r.randrange(1, 60000))))
        traces.append(trace(f"{ver}-{k}-{id_}", [["header", 1], ["iter", 1]] + [["next", 1]] * len(smps) + ops, stream(len(logs))))

    def smp(**kw):
        kw.setdefault("cgroups", [(8, 2), (16, 0), (24, 5)])
        return sample(ver, r, record={}, **kw)

    budget = 6000 if tier == "quick" else 30000
    if k == 0:
        # All parts of a sample; few entries.
        s = smp(tasks=3)
        set_limiters(s, r, budget, lims, lambda *a: r.choice([0, 1, 2]))
        ops = [["dict", 1, 1, "hdr"], ["dict", 1, 1, "rec"], ["dict", 1, 1, "ss"]] + [["dict", 1, 1, "ts", x] for x in (1, 2, 3)]
        ops += [["dict", 1, 1, "cg", x] for x in (1, 2, 3) if "cstat" in s.f]
        # The structures are unchanged, and converting them again gives the same.
        ops += [["held", 1, 1], ["mutate_dict", 1, 1, "rec"], ["mutate_dict", 1, 1, "ts", 2], ["dict", 1, 1, "ss", 0, {"json_too": False}], ["held", 1, 1]]
        # Structures within structures.
        for p, part, x in [("hdr", "header", 0), ("rec", "record", 0), ("ss", "sstat", 0), ("ts", "tstat", 2)] + ([("cg", "cstat", 2)] if "cstat" in s.f else []):
            ops += [["inner", 1, 1, p, x, q] for q in inner(lay, s.f[part])]
        add("parts", [s], ops)
        if "cstat" in s.f:
            s = smp(tasks=0, cgroups=[(8, n) for n in (0, 1, 2, 100, 0)])
            set_limiters(s, r, 0, lims, lambda *a: 0)
            add("cgroups", [s], [["dict", 1, 1, "cg", x] for x in range(1, 6)])
    # Every list in turn with an unusual count, the others with none or few.
    for n, (path, lim, cap, leaves) in enumerate(lims):
        if n % (3 if tier == "quick" else 12) != k and tier == "quick":
            continue
        counts = [cap, cap + 1, cap - 1, r.choice([2 * cap, 0x7FFF if cap > 300 else 1000, 100000])]
        if tier == "quick" and leaves * cap > 4000:
            counts = [r.choice(counts)]
        for c in counts:
            s = smp(tasks=0, cgroups=None)
            set_limiters(s, r, 10 ** 9, lims, lambda p, q, _: c if (p, q) == (path, lim) else r.choice([0, 0, 1]))
            add(f"{'.'.join(path)}.{lim}={c}", [s], [["dict", 1, 1, "ss", 0, {"json_too": c == cap + 1 and leaves * cap < 4000}]])
    # Counts of all sorts at once; two samples with different counts.
    for n in range(1 if tier == "quick" else 6):
        a, b = smp(tasks=1), smp(tasks=2, rich=False)
        for s in (a, b):
            set_limiters(s, r, budget, lims, lambda p, q, cap: r.choice([0, 1, 2, 3, 7, cap // 2, cap - 1, cap, cap + 1, cap + 100]))
        add(f"mix{n}", [a, b], [["dict", 1, 1, "ss"], ["dict", 1, 2, "ss"], ["dict", 1, 1, "ss", 0, {"json_too": False}]])
    return {"logs": logs, "traces": traces}
