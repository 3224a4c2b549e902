"""Scenarios generated by TLC from the specification (GenReader), turned into real logs and calls."""

from . import damage, gen, layout, tla
from .gen import cg_versions, rng, versions
from .logs import Log, Sample
from .run import stream

_cache = {}


def behaviours(cfg, seed=1, num=None, depth=80):
    key = (cfg, seed, num)
    if key not in _cache:
        extra = [] if num is None else ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)]
        r = tla.run("GenReader", cfg, workers=8 if num is None else 1, heap="4g", extra=extra)
        seen, res = set(), []
        for g in sorted(tla.printed(r["text"], "GEN "), key=repr):
            if repr(g) not in seen:
                seen.add(repr(g))
                res.append(g)
        _cache[key] = res
    return _cache[key]


def full(f):
    s = f["s"][-1:] or [None]
    return f["hdr"] if s[0] is None else s[0]["at"] + f["rec"] + sum(s[0]["blk"])


def faulty(f):
    return any(x != "ok" for s in f["s"] for x in s["fault"])


def family(name, tier, seed):
    """Behaviours of a family, at most as many as the tier allows, chosen by seed."""
    if name in ("frame", "cut", "fault"):
        g = behaviours("GenCut")
        cut = lambda b: b["log"][0]["avail"] < full(b["log"][0]) or b["log"][0]["torn"]
        g = [b for b in g if {"frame": not cut(b) and not faulty(b["log"][0]),
                              "cut": cut(b) and not faulty(b["log"][0]),
                              "fault": faulty(b["log"][0])}[name]]
        most = {"quick": 1500, "thorough": 12000}[tier]
    elif name == "hist":
        g = behaviours("GenHist", seed, 1500 if tier == "quick" else 20000)
        most = len(g)
    else:
        g = behaviours("GenPair", seed, 400 if tier == "quick" else 4000, depth=120)
        most = len(g)
    r = rng("family", name, seed)
    g = list(g)
    r.shuffle(g)
    return g[:most]


def batches(name, tier, seed, parts=16):
    g = family(name, tier, seed)
    return [("spec", name, seed, k, g[k::parts]) for k in range(parts) if g[k::parts]]


class Maker:
    """Real logs for abstract ones; equal shapes share a log."""

    def __init__(self, r):
        self.r, self.logs, self.known = r, [], {}

    def log(self, f, ver):
        """Index (from 1) of the real log for the shape of f."""
        key = (ver, repr(f["s"]))
        if key not in self.known:
            self.logs.append(Log(ver, [self.sample(s, ver, k) for k, s in enumerate(f["s"])]))
            self.logs[-1].build()
            self.known[key] = len(self.logs)
        return self.known[key]

    def sample(self, s, ver, k):
        r, lay = self.r, layout.load()
        blk, fault = s["blk"], s["fault"]
        tasks = 1 if blk[1] < 2 else 3
        cg = None
        if len(blk) == 4:
            if blk[2] == 0 and fault[2] != "short":
                cg = None if blk[3] == 0 else []
            elif blk[3] == 0 and fault[3] != "short":
                cg = [(8, 0)] * blk[2]
            else:
                cg = [(8 * (x + 1), 2 + x) for x in range(max(1, blk[2]))]
        x = gen.sample(ver, r, tasks=tasks, cgroups=cg, rich=blk[0] == 2 and r.random() < 0.3, level=9)
        x.view("rec").set("interval", 60 + k)
        if blk[0] == 0:
            x.endmark = True
            return x
        if len(blk) == 4 and x.cg is not None:
            if blk[2] == 0:
                x.omit.add(2)
            if blk[3] == 0:
                x.omit.add(3)
        for b, y in enumerate(fault):
            if y == "bad":
                x.damage[b] = lambda z: damage.surely(z, r)
            elif y == "short":
                self.shorten(x, b)
        return x

    def shorten(self, x, b):
        r, lay = self.r, layout.load()
        if b == 0:
            x.lens[0] = r.choice([0, 1, x.lens[0] - 1, x.lens[0] // 2])
        elif b == 1:
            name = "nlist" if x.ver == "1.26" else "ndeviat"
            if r.random() < 0.5:
                x.counts[name] = x.tasks + r.choice([1, 2, 100])
            else:
                x.lens[1] = r.choice([0, x.lens[1] - 1, x.lens[1] // 2])
        elif b == 2:
            size = lay.size(x.f["cstat"])
            if r.random() < 0.5:
                x.counts["ncgroups"] = len(x.cg) + r.choice([1, 3])
            else:
                x.lens[2] = r.choice([0, size - 1, size // 2])
        else:
            x.lens[3] = r.choice([0, x.lens[3] - 1, x.lens[3] - 4])


def offset(lg, f, avail, r):
    """The place in the real log that corresponds to an abstract cut."""
    if avail <= f["hdr"]:
        return 480
    for s, offs in zip(f["s"], lg.bounds):
        at = s["at"]
        for n, (lo, hi) in zip([f["rec"]] + s["blk"], zip(offs, offs[1:])):
            if avail == at:
                return lo
            if at < avail < at + n:
                return r.randrange(lo + 1, hi) if hi - lo > 1 else lo
            at += n
        if avail == at:
            return offs[-1]
    raise AssertionError("cut outside the log")


def calls(hist, h_kind):
    """Operations of the runner for a history."""
    names = {1: "sstat", 2: "tstat", 3: "cstat"}
    ops = []
    for e in hist:
        h = e["h"]
        if e["a"] == "block":
            ops.append([names[e["b"]], h])
        elif e["a"] == "next":
            ops.append(["next", h, e["k"]])
        elif e["a"] == "iter":
            ops.append(["iter", h, {"limit": e["limit"], "raise_": e["raise"], "hdr": e["hdr"]}])
        else:
            ops.append([e["a"], h])
    return ops


def play(runner, ops):
    """All operations, going on after an iterator's end (as the specification does)."""
    for op in ops:
        kw = op[-1] if isinstance(op[-1], dict) else {}
        args = op[1:-1] if kw else op[1:]
        ok = getattr(runner, "op_" + op[0])(*args, **kw)
        if not ok and op[0] != "next":
            break
        if op[0] == "next" and runner.ev[-1]["out"] not in ("sample", "end"):
            break


def make(arg):
    _, name, seed, part, group = arg
    r = rng("spec", name, seed, part)
    m = Maker(r)
    traces = []
    plain = [v for v in versions() if v not in cg_versions()]
    for n, b in enumerate(group):
        # Spread the behaviours over the versions; few shapes per version keep the number of real logs small.
        strs = []
        for f in b["log"]:
            pick = cg_versions() if f["cg"] else plain
            ver = pick[(n // 7 + len(strs)) % len(pick)]
            k = m.log(f, ver)
            lg = m.logs[k - 1]
            avail = -1 if f["avail"] == full(f) else offset(lg, f, f["avail"], r)
            src = "gz" if f["torn"] else r.choice(["mem", "mem", "file", "pieces"])
            strs.append(stream(k, avail, f["torn"], src))
        traces.append({"id": f"{name}{part}.{n}", "str": strs, "script": play, "args": (calls(b["hist"], None),)})
    return {"logs": m.logs, "traces": traces}
