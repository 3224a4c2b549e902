"""The world of the process (source, files, output, directories, environment, signals, threads, limits, state of the
standard library) before and after every call of the library: logs of every version, complete, cut, damaged or no logs at
all, from memory and files, read by iteration and call by call, abandoned, converted, put into rows; the command run to
success and to failure; the package imported."""


from .. import damage, gen, layout, world
from ..gen import rng
from ..logs import Log, header
from ..run import stream


def models(tier):
    return [("MCWorld", "MCWorld")]


def batches(tier, seed):
    ks = range(1 if tier == "quick" else 10)
    return [("read", v, seed, k, tier) for k in ks for v in gen.versions()] + [("cli", v, seed, k, tier) for k in ks for v in gen.versions()] + [("import", "", seed, 0, tier)]


def parts(lg, i):
    s = lg.samples[i - 1]
    return [("rec", 0), ("ss", 0)] + [("ts", x + 1) for x in range(min(3, s.tasks))] + [("cg", x + 1) for x in range(min(3, len(s.cg or ())))]


LABELS = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "SWP", "PRC", "PRD", "PRG", "PRM", "PRN"]


def unusual(r):
    return r.sample(sorted(world.SETTINGS), r.choice([0, 3, 6, 9]))


def read(runner, lg, r, way, raise_):
    with runner.secluded(unusual(r)):
        own = r.random() < 0.5
        if (own or way == "steps") and not runner.around("header", 1, "header", 1):
            return
        if way == "steps":
            blocks = ["record", "sstat", "tstat"] + (["cstat"] if layout.load().cgroups(lg.ver) else [])
            for _ in lg.samples:
                if not all(runner.around(b, 1, b, 1) for b in blocks):
                    return
        else:
            runner.around("iter", 1, "iter", 1, None, raise_, not own)
            most = r.randrange(len(lg.samples)) if way == "abandon" else 9
            n = 0
            while n < most and runner.around("next", 1, "next", 1):
                n += 1
            if way == "abandon":
                runner.around("close", 1, "close", 1)
        for i in range(1, len(runner.samples[1]) + 1):
            for p, x in [("hdr", 0)] + parts(lg, i):
                runner.around("dict", 1, "dict", 1, i, p, x, json_too=False)
            if lg.ver == "1.26":
                for lab in LABELS:
                    runner.around("rows", 1, "rows", 1, i, lab)


def command(runner, files, kw, r):
    with runner.secluded(unusual(r)):
        runner.put(files)
        runner.around("command", 1, "cli", files, **kw)


def importing(runner, names):
    runner.op_import(*names)


def make(arg):
    what, ver, seed, k, tier = arg
    r = rng("C23", what, ver, seed, k)
    if what == "import":
        mods = ["atoparser", "atoparser.utils", "atoparser.reader", "atoparser.parsers.atop_1_26", "atoparser.structs.shared"] \
            + ["atoparser.structs.atop_" + v.replace(".", "_") for v in gen.versions()]
        sets = [[m] for m in mods] + [mods, mods[::-1]]
        return {"logs": [gen.small("2.3", r, 1)], "seconds": 100,
                "traces": [{"id": f"import-{n}", "str": [stream(1)], "script": importing, "args": (s,)} for n, s in enumerate(sets)]}
    logs, traces = [], []

    def some(kind):
        lg = gen.small(ver, r, 3, tasks=r.choice([0, 1, 3]), cgroups=r.choice([[], [(8, 3), (16, 2)], None]))
        for s in lg.samples:
            s.view("ss").set("cpu", "nrcpu", r.choice([0, 1, 4]))
        avail = None
        if kind == "damaged":
            lg.samples[r.choice([1, 2])].damage[r.choice([0, 1])] = lambda z: damage.surely(z, r)
        elif kind == "short":
            lg.samples[r.choice([1, 2])].lens[0] -= 8
        elif kind == "magic":
            lg.hdr.poke(0, b"ATOP")
        elif kind == "lengths":
            lg = Log(ver, lg.samples, header(ver, sstatlen=4))
        elif kind in ("tasks", "cgroups"):
            # More entries than there are.
            lg.samples[r.choice([1, 2])].counts["ncgroups" if kind == "cgroups" else "nlist" if ver == "1.26" else "ndeviat"] = 9
        elif kind == "end":
            lg.samples[2].endmark = True
        lg.build()
        if kind == "cut":
            avail = r.randrange(480, len(lg.data))
        elif kind == "cut header":
            avail = r.randrange(480)
        logs.append(lg)
        return lg, avail

    kinds = ["whole", "whole", "cut", "damaged", "short", "tasks", "end", "magic", "lengths", "cut header"] + ["cgroups"] * layout.load().cgroups(ver)
    if what == "read":
        for n, kind in enumerate(kinds):
            for way in ("iter", "steps", "abandon") if kind not in ("cut", "magic", "lengths", "cut header") else ("iter",):
                if way == "steps" and kind == "end" or way == "abandon" and kind in ("tasks", "cgroups"):
                    continue
                lg, avail = some(kind)
                src = r.choice(["mem", "file", "raw", "gz", "gzfile"])
                traces.append({"id": f"{ver}-{kind}-{n}-{way}", "str": [stream(len(logs), -1 if avail is None else avail, src=src)],
                               "script": read, "args": (lg, r, way, r.choice([None, False]))})
    else:
        for n in range(6):
            strs, files, bad = [], [], n >= 3
            for m in range(r.choice([1, 2, 3])):
                kind = r.choice(["whole", "cut", "damaged"] if not bad else kinds)
                lg, avail = some(kind)
                strs.append(stream(len(logs), -1 if avail is None else avail))
                files.append([len(strs), f"f{m}" + r.choice(["", ".gz"])])
            if bad and r.random() < 0.6:
                files.insert(r.randrange(len(files) + 1), [[r.choice(["dir", "missing", "empty", "text", "noise", "zeros"]), seed + n], "other"])
            kw = {"ts": r.random() < 0.5, "cs": r.random() < 0.5, "pretty": r.random() < 0.5, "style": r.randrange(16), "sub": n in (0, 3)}
            if r.random() < 0.4:
                kw["labels"] = r.sample([x for x in LABELS if x != "PRD"], r.choice([1, 3]))
            traces.append({"id": f"{ver}-command-{n}", "str": strs, "script": command, "args": (files, kw, r)})
    return {"logs": logs, "traces": traces, "seconds": 60}
