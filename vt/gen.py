"""Ingredients of scenarios: versions, samples and logs with unusual but legal contents."""

import random

from . import layout
from .content import Content, View
from .logs import Log, Sample, header
from .run import stream

MANY = [0, 1, 2, 3, 255, 256, 257]


def versions():
    return layout.load().versions


def cg_versions():
    return [v for v in versions() if layout.load().cgroups(v)]


def rng(*key):
    return random.Random(":".join(str(k) for k in key))


#: Values of record fields that no reader may mistake for an end or an error.
RECORDS = [
    {},
    {"curtime": 0},
    {"curtime": 0, "interval": 0, "flags": 0},
    {"curtime": -1, "flags": 0xFFFF},
    {"curtime": (1 << 63) - 1, "interval": 0xFFFFFFFF},
    {"interval": 0},
    {"flags": 1},
    {"flags": 0x20},
    {"flags": 0x40},
    {"npresent": 0, "nexit": 0, "ntrun": 0, "ntslpi": 0, "ntslpu": 0, "nzombie": 0},
    {"npresent": 0xFFFFFFFF, "nexit": 0xFFFFFFFF, "nzombie": 0xFFFFFFFF, "ntrun": 0xFFFFFFFF},
    {"nexit": 1, "npresent": 2, "ntrun": 3},
    {"totproc": 0, "totrun": 0, "totslpi": 0, "totslpu": 0, "totzomb": 0, "nactproc": 0, "ntask": 0},
    {"totproc": 70000, "totrun": 1, "totslpi": 2, "totslpu": 3, "totzomb": 4, "nexit": 5, "noverflow": 65535, "ndeviat": None},
]


def set_record(smp, values):
    lay = layout.load()
    names = lay.fields[smp.f["record"]]
    for n, v in values.items():
        if n in names and v is not None and n not in ("nlist", "ndeviat"):
            smp.counts[n] = v


def cg_lists(r):
    """Cgroup lists: name lengths and process counts."""
    size = 8
    return r.choice([
        [], [(size, 0)], [(0, 0)], [(size, 3), (16, 0), (24, 2)], [(0, 5), (8, 1)],
        [(8 * r.randrange(0, 32), r.choice([0, 0, 1, 2, 7, 40])) for _ in range(r.choice([1, 2, 3, 5, 9]))],
    ])


_ends = {}


def ends(s):
    """Leaves of a structure with the first and last elements of its arrays: (path, offset, width, kind)."""
    if s not in _ends:
        lay = layout.load()
        res = []
        for p in lay.leaves(s, lambda f: sorted({0, f["c"] - 1})):
            off, t, k, c = lay.at(s, *p)
            res.append((p, off, c if k == "str" else lay.width(t), k))
        _ends[s] = res
    return _ends[s]


NAMES = [b"", b"a", b"kworker/0:1", b"sshd", b"java", b"ab\0cd", b"\xc3\xa9t\xc3\xa9"]


def everyday(s, r, struct, before=(), keep=()):
    """Bytes of a structure whose fields have few different values, many of them shared with other fields and with the
    structures before it: everyday coincidences that no reader may make anything of."""
    lay = layout.load()
    if before and r.random() < 0.3:
        buf = bytearray(r.choice(before))
        some = r.sample(ends(struct), r.choice([0, 1, 1, 2, 5]))
    else:
        buf = bytearray(lay.size(struct))
        some = ends(struct)
    pool = [0, 0, 1, 1, 2, r.randrange(1, 300), r.randrange(1, 1 << 30), -1]
    for p, off, w, k in some:
        if p in keep:
            continue
        if k == "str":
            v = r.choice(NAMES)[:w].ljust(w, b"\0") if w > 1 else r.choice(b"ERSDZIny\0").to_bytes(1, "little")
        elif k == "one" and w == 1 and r.random() < 0.7:
            v = r.choice(b"EERSSDZIny\0").to_bytes(1, "little")
        elif before and r.random() < 0.3:
            v = r.choice(before)[off : off + w]
        else:
            v = (r.choice(pool) % (1 << 8 * w)).to_bytes(w, "little")
        buf[off : off + w] = v
    return bytes(buf)


def people(s, r):
    """Fill tasks and cgroups of a sample with everyday contents."""
    lay = layout.load()
    size, done = lay.size(s.f["tstat"]), []
    order = r.choice([None, None, "pid", "tgid"])
    for x in range(s.tasks):
        # Now and then all but a few fields are those of the one in front.
        b = everyday(s, r, s.f["tstat"], done[-1:] if r.random() < 0.5 else done)
        done.append(b)
    if order and order in lay.fields[lay.fields[s.f["tstat"]]["gen"]["t"]]:
        # In some order of ids, or almost.
        off, t, _, _ = lay.at(s.f["tstat"], "gen", order)
        done.sort(key=lambda b: b[off : off + 4], reverse=r.random() < 0.5)
        if len(done) > 1 and r.random() < 0.5:
            done[0], done[-1] = done[-1], done[0]
    for x, b in enumerate(done):
        s.ts.poke(x * size, b)
    if s.cg:
        keep, done, o = [["gen", "structlen"], ["gen", "nprocs"]], [], 0
        for name, n in s.cg:
            b = everyday(s, r, s.f["cstat"], done, keep)
            done.append(b)
            v = View(lay, s.f["cstat"], s.cs, o)
            s.cs.poke(o, b)
            v.set("gen", "structlen", lay.size(s.f["cstat"]) + name).set("gen", "nprocs", n)
            o += lay.size(s.f["cstat"]) + name
        ids = [r.choice([0, 1, 1, 2, r.randrange(1 << 22)]) for _ in range(min(50, s.lens[3] // 4))]
        s.pl.poke(0, b"".join(i.to_bytes(4, "little") for i in ids))


def sample(ver, r, tasks=None, cgroups="any", level=None, rich=True, record=None):
    """A random legal sample; rich contents come from a pattern, others are zeros with a mark."""
    seed = r.randrange(1, 200) if rich else 0
    if tasks is None:
        tasks = r.choice([0, 1, 1, 2, 3, 5, 8])
    if cgroups == "any":
        cgroups = cg_lists(r) if r.random() < 0.85 else None
    s = Sample(ver, 0, tasks, cgroups, level if level is not None else r.choice([0, 1, 6, 9] if not rich else [1, 6, 9]))
    s.rec.seed = r.randrange(1, 60000)
    if rich:
        # Few seeds for the large system block: patterns are computed once per seed and size.
        s.ss.seed = 1 + seed % 3
        s.ts.seed, s.cs.seed, s.pl.seed = seed, seed, seed
    # A mark of its own in every block, so that no two samples are alike.
    mark = r.randrange(1, 1 << 30).to_bytes(4, "little")
    s.ss.poke(0, mark)
    s.ss.poke(s.lens[0] - 4, mark)
    tsize = layout.load().size(s.f["tstat"])
    for t in range(tasks) if tasks < 40 else (0, tasks // 2, tasks - 1):
        s.ts.poke(t * tsize, mark)
        s.ts.poke((t + 1) * tsize - 4, t.to_bytes(4, "little"))
    if s.cg:
        for x in range(len(s.cg)):
            s.view("cg", x).set("cpu", "utime", x + 1)
        if not rich:
            for p in range(s.lens[3] // 4):
                s.pl.poke(4 * p, (1000 + p).to_bytes(4, "little"))
    if s.tasks < 40 and len(s.cg or ()) < 40 and r.random() < (0.4 if rich else 0.2):
        people(s, r)
    set_record(s, r.choice(RECORDS) if record is None else record)
    return s


def log(ver, r, n, **kw):
    return Log(ver, [sample(ver, r, **kw) for _ in range(n)])


def small(ver, r, n, **kw):
    """A log of few bytes: mostly zeros."""
    kw.setdefault("rich", False)
    kw.setdefault("level", 9)
    return log(ver, r, n, **kw)


def full_run(raise_=None, hdr=False, limit=None):
    ops = [] if hdr else [["header", 1]]
    return ops + [["iter", 1, {"limit": limit, "raise_": raise_, "hdr": hdr}], ["all", 1]]


def trace(id_, ops, *streams):
    return {"id": id_, "str": list(streams) or [stream()], "ops": ops}


_telling = {}


def telling(ver, part):
    """Leaves of a structure that are elsewhere, or missing, in a version whose structures are as long."""
    if (ver, part) not in _telling:
        lay = layout.load()
        parts = ("header", "record", "sstat", "tstat")
        leaves = lambda v: {tuple(p): lay.at(lay.formats[v][part], *p) for p in lay.leaves(lay.formats[v][part], lambda f: [0, f["c"] - 1])}
        lens = lambda v: [lay.size(lay.formats[v][q]) for q in parts]
        mine, res = leaves(ver), set()
        for v in versions():
            if v != ver and lens(v) == lens(ver):
                other = leaves(v)
                res |= {p for p in mine if other.get(p) != mine[p]}
        _telling[ver, part] = [list(p) for p in sorted(res, key=repr)]
    return _telling[ver, part]


def probe(r, ver, h, i, smp, most=6):
    """Operations that look at the values of a delivered sample: what tells versions apart, and others."""
    lay = layout.load()
    ops = []
    for p, part, xs in (("rec", "record", [0]), ("ss", "sstat", [0]), ("ts", "tstat", range(1, smp.tasks + 1)), ("cg", "cstat", range(1, len(smp.cg or ()) + 1))):
        if not xs:
            continue
        leaves = list(lay.leaves(smp.f[part], lambda f: [0, f["c"] - 1]))
        pick = (telling(ver, part) if p != "cg" else []) + r.sample(leaves, min(most, len(leaves)))
        ops.append(["attrs", h, i, p, r.choice(list(xs)), pick])
    return ops
