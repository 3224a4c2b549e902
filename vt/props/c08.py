"""Every block of every sample damaged in various ways, or holding less than its structure or number of entries
needs, in logs of every version, read with both settings; faults and calls also generated from the
specification by TLC."""

from .. import damage, gen, layout, spec_gen
from ..gen import rng, trace
from ..logs import Log
from ..run import stream


def models(tier):
    return [("MCReader", "MCFrame" if tier == "quick" else "MCReader")]


def batches(tier, seed):
    res = [("own", v, seed + k, tier) for v in gen.versions() for k in range(1 if tier == "quick" else 6)]
    return res + spec_gen.batches("fault", tier, seed)


def make(arg):
    if arg[0] == "spec":
        return spec_gen.make(arg)
    _, ver, seed, tier = arg
    r = rng("C08", ver, seed)
    lay = layout.load()
    nblocks = 4 if lay.cgroups(ver) else 2
    logs, traces = [], []

    def add(id_, lg):
        lg.build()
        logs.append(lg)
        for raise_ in (None, False, True):
            hdr = len(traces) % 3 == 0
            ops = ([] if hdr else [["header", 1]]) + [["iter", 1, {"raise_": raise_, "hdr": hdr}], ["all", 1]]
            traces.append(trace(f"{ver}-{id_}-{raise_}", ops, stream(len(logs), src="mem" if raise_ is None else "file")))
        # Direct calls meet the same trouble.
        ops = [["header", 1]] + [["steps", 1]] * 3
        traces.append(trace(f"{ver}-{id_}-steps", ops, stream(len(logs))))

    def three():
        lg = gen.small(ver, r, 3, tasks=2, cgroups=[(8, 3), (16, 2)])
        return lg

    for b in range(nblocks):
        kinds = damage.kinds(r)
        for where in (0, 1, 2):
            for k in kinds[: (3 if tier == "quick" else 10)]:
                lg = three()
                lg.samples[where].damage[b] = lambda z, k=k: k(z) if _bad(k(z)) else damage.surely(z, r)
                add(f"bad{b}.{where}.{kinds.index(k)}", lg)
        # Single bits anywhere in the block.
        for n in range(4 if tier == "quick" else 60):
            lg = three()
            bit = r.randrange(1 << 20)
            flip = lambda z, bit=bit: damage._flip(z, bit // 8 % len(z), bit % 8)
            lg.samples[1].damage[b] = lambda z, flip=flip: flip(z) if _bad(flip(z)) else damage.surely(z, r)
            add(f"bit{b}.{n}", lg)
        # Too little in the block.
        m = spec_gen.Maker(r)
        for where in (0, 1, 2):
            for n in range(2 if tier == "quick" else 8):
                lg = three()
                m.shorten(lg.samples[where], b)
                add(f"short{b}.{where}.{n}", lg)
    # One byte or one entry too few, exactly.
    for b, less in [(0, 1), (1, 1)] + ([(2, 0), (3, 1), (3, 4)] if nblocks == 4 else []):
        lg = three()
        s = lg.samples[1]
        if b == 2:
            s.lens[2] = lay.size(s.f["cstat"]) + 8 + lay.size(s.f["cstat"]) - 1
        else:
            s.lens[b] -= less
        add(f"less{b}.{less}", lg)
    # A count beyond the entries that are there.
    for more in (1, 2, 1000):
        lg = three()
        lg.samples[1].counts["nlist" if ver == "1.26" else "ndeviat"] = 2 + more
        add(f"tasks+{more}", lg)
        if nblocks == 4:
            lg = three()
            lg.samples[1].counts["ncgroups"] = 2 + more
            add(f"cgroups+{more}", lg)
    # Blocks that are shorter (or longer) than what was written, which the record says.
    for b in range(nblocks):
        for n, k in enumerate(damage.shorter(r)[: (4 if tier == "quick" else 10)]):
            lg = three()
            lg.samples[n % 3].damage[b] = lambda z, k=k: k(z) if _bad(k(z)) else damage.surely(z, r)
            add(f"shorter{b}.{n}", lg)
    # Cgroups that are declared, of which nothing was written.
    if nblocks == 4:
        for n, gone in enumerate([{2, 3}, {2}, {3}]):
            lg = three()
            lg.samples[n].omit = gone
            add(f"gone{n}", lg)
    # Cgroups that claim to be shorter than they can be, or to have less than no processes.
    if nblocks == 4:
        size = lay.size(lay.formats[ver]["cstat"])
        claims = [("structlen", v) for v in (0, 8, size - 8, size - 1, -1, -size)] + [("nprocs", -1), ("nprocs", -(1 << 31))]
        for n, (field, v) in enumerate(claims):
            for x in range(2):
                lg = three()
                lg.samples[n % 3].view("cg", x).set("gen", field, v % (1 << 32))
                add(f"claim{n}.{x}", lg)
        # The same entry over and over.
        lg = three()
        lg.samples[1].view("cg", 0).set("gen", "structlen", 0)
        lg.samples[1].counts["ncgroups"] = 1000
        add("again", lg)
    # Noise behind the last sample, its lengths of any size; what there is of it does not decompress.
    names = ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if nblocks == 4 else [])
    for n, size in enumerate([1, 2, 100, 5000, 1 << 20, (1 << 24) - 1, 1 << 24][: (7 if tier != "quick" else 5)]):
        lg = three()
        noise = gen.sample(ver, r, tasks=r.choice([0, 1, 3]), cgroups=[(8, 1)])
        junk = b"\xff" + r.randbytes(max(0, size - 1) if size <= 5000 else 3000)
        for b in range(nblocks):
            noise.damage[b] = (lambda z: junk) if b == 0 else (lambda z: junk[:7])
            noise.claims[names[b]] = size if b == 0 else r.choice([0, 1, 7, 1 << 16, (1 << 24) - 1])
        noise.counts["nlist" if ver == "1.26" else "ndeviat"] = r.choice([0, 1, 1000, 70000])
        lg.samples.append(noise)
        lg.build()
        logs.append(lg)
        for raise_ in (None, False):
            for src in ("mem", "file", "pipe"):
                traces.append(trace(f"{ver}-noise{n}-{raise_}", [["iter", 1, {"raise_": raise_, "hdr": True}], ["all", 1]], stream(len(logs), len(lg.data), src=src)))
    # Two damaged samples; a damaged one in front of a cut.
    lg = three()
    lg.samples[0].damage[1] = lambda z: damage.surely(z, r)
    lg.samples[2].damage[0] = lambda z: damage.surely(z, r)
    add("two", lg)
    return {"logs": logs, "traces": traces}


def _bad(z):
    import zlib
    try:
        zlib.decompress(z)
    except zlib.error:
        return True
    return False
