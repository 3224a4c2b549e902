"""The command in many kinds of surroundings - encodings, time zones, hash seeds, interpreter options, terminals, files and
pipes as output, working directories, variables, links and pipes as files, ways to start it - byte for byte the same; and
with too little room for its output."""

from .. import damage, gen, layout, process
from ..gen import rng, sample
from ..logs import Log, header
from ..run import stream
from .c12 import limiters, set_limiters
from .c13 import text

LABELS = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "SWP", "PRC", "PRG", "PRM", "PRN"]


def models(tier):
    return [("MCCommand", "MCCommand"), ("MCTwin", "MCTwin")]


def batches(tier, seed):
    return [(v, seed, k, tier) for k in range(2 if tier == "quick" else 12) for v in gen.versions()]


def runs(runner, files, kw, hows, rooms):
    runner.op_runs(files, kw, hows, rooms)


# Around the changes between winter and summer in Berlin and New York, and elsewhere.
TIMES = [1679792400 - 1800, 1678604400 - 1800, 1698537600, 1698537600 - 1800, 1699160400, 1699160400 - 1800, 1, 1690000000, 2000000000]


def spoil(lg, r):
    """A log that must be refused or that ends early."""
    kind = r.choice(["magic", "lengths", "lengths", "damaged", "short", "tasks"])
    s = lg.samples[-1]
    if kind == "magic":
        lg.hdr.poke(0, bytes([r.randrange(1, 255), 0, 0, 0]))
    elif kind == "lengths":
        name = r.choice(["rawheadlen", "rawreclen", "sstatlen", "pstatlen" if lg.ver == "1.26" else "tstatlen"])
        lg.hdr = header(lg.ver, **{name: r.choice([1, 0, 65535, 4711])})
    elif kind == "damaged":
        s.damage[r.choice([0, 1])] = lambda z: damage.surely(z, r)
    elif kind == "short":
        s.lens[0] -= 8
    else:
        s.counts["nlist" if lg.ver == "1.26" else "ndeviat"] = 9
    lg.build()


def make(arg):
    ver, seed, k, tier = arg
    r = rng("C24", ver, seed, k)
    logs, traces = [], []

    def one(v):
        lay = layout.load()
        s = sample(v, r, tasks=r.choice([0, 1, 2]), cgroups=r.choice([None, [], [(8, 2), (16, 0)]]), record={})
        set_limiters(s, r, 40, limiters(s.f["sstat"]), lambda *a: r.choice([0, 0, 1]))
        for x in range(s.tasks):
            for p in (["gen", "name"], ["gen", "cmdline"]):
                s.view("ts", x).set(*p, text(r, lay.at(s.f["tstat"], *p)[3]))
        return s

    for n in range(6):
        strs, files = [], []
        kw = {"ts": r.random() < 0.6, "cs": r.random() < 0.6, "pretty": r.random() < 0.5, "style": r.randrange(16)}
        if n in (1, 3):
            kw["labels"] = r.sample(LABELS, r.choice([1, 2, 5]))
            if n == 3 and r.random() < 0.2:
                kw["labels"].append("XYZ")
        for m in range(r.choice([1, 2, 3])):
            v = "1.26" if n == 1 else ver if m == 0 else r.choice(gen.versions())
            smps = [one(v) for _ in range(r.choice([1, 2, 3]) if n != 1 else 4)]
            # Winter and summer, and hours that are there twice or never.
            t = r.choice(TIMES if n != 1 else TIMES[2:6])
            for x, s in enumerate(smps):
                s.view("rec").set("curtime", t + 1800 * x)
            logs.append(Log(v, smps, header(v, seed=r.choice([0, r.randrange(60000)]))))
            if n == 5 and m == 0:
                spoil(logs[-1], r)
            strs.append(stream(len(logs), -1 if n == 5 else r.randrange(480, len(logs[-1].data)) if r.random() < 0.2 else -1))
            name = r.choice(["log", "a b", "atop_20260101", "x"]) + str(m)
            if r.random() < 0.2:
                name += "\udcff"
            files.append([len(strs), name + (".gz" if r.random() < 0.3 else "")])
        if r.random() < 0.2:
            files.append(list(files[0]))
        if n == 4:
            files.insert(r.randrange(len(files) + 1), [[r.choice(["missing", "text", "noise"]), seed + k], "other"])
        hows = [process.some(r) for _ in range(7 if tier == "quick" else 20)]
        for how, seeded in zip(hows[1:3], ("1", "4711")):
            how["hash"] = seeded
        if n == 1:
            for how, zone in zip(hows[3:], ("America/New_York", "Europe/Berlin")):
                how["zone"] = zone
        if n == 5:
            hows = hows[:3] + [dict(process.some(r, 2), flags=f) for f in (["-O"], ["-OO"], ["-W", "error"])]
        rooms = [(part, process.some(r, 2)) for part in (0, r.random())] if n in (0, 1, 2) else []
        traces.append({"id": f"{ver}-{k}-{n}", "str": strs, "script": runs, "args": (files, kw, hows, rooms)})
    return {"logs": logs, "traces": traces, "seconds": 300}
