"""Logs of many samples, of which the caller keeps none or a few: which of their objects still exist and how much memory was
added, with all kinds of sources, the iterator and the individual functions, dictionaries and rows of the samples made on the
way, at the end of the log, at an error, at a limit and when the iterator is abandoned; files left open by the command."""

from .. import gen, layout
from ..gen import rng, sample, trace
from ..logs import Log
from ..run import stream
from .c12 import limiters, set_limiters
from .c17 import LABELS


def models(tier):
    return [("MCHold", "MCHold")]


def batches(tier, seed):
    n = 1 if tier == "quick" else 6
    return [("read", v, seed, k, tier) for v in gen.versions() for k in range(n)] + [("files", seed, k, tier) for k in range(n)]


def make(arg):
    return {"read": read, "files": files}[arg[0]](arg)


def use(r, h, how, ver, rnd):
    """Make dictionaries or rows of the last sample and drop them."""
    smp = r.samples[h][-1]
    if "dict" in how:
        for o in (r.header(h), smp[0], smp[1], *smp[2], *smp[3]):
            r.guarded(lambda: r.ap.struct_to_dict(o))
    if "rows" in how:
        for lab in rnd.sample(LABELS, 3):
            r.guarded(lambda: list(r.parse(h, len(r.samples[h]), lab)))
    if "look" in how:
        r.guarded(lambda: [str(o) for o in smp[:2]])


def walk(r, how, n, keep, every, seed):
    """Read up to n samples of stream 1, looking now and then at what exists."""
    rnd = rng("C20walk", seed)
    ver = r.ver(1)
    r.op_watch(1)
    warm = 8
    step = (lambda: r.op_steps(1)) if "steps" in how else (lambda: r.op_next(1, 1))
    for i in range(1, n + 1):
        if not step():
            break
        use(r, 1, how, ver, rnd)
        r.op_drop(1, [x for x in keep if x <= i])
        if i == warm:
            r.op_mark(1)
        if i % every == 0:
            r.op_hold(1, end=i > warm and i % (3 * every) == 0)
    if "abandon" in how and "steps" not in how:
        if "close" in how:
            r.op_close(1)
        r.iters[1].clear()
    if "drop" in how:
        r.op_drop(1)
    r.op_hold(1, end=True)
    r.op_unwatch()
    return True


def read(arg):
    _, ver, seed, k, tier = arg
    r = rng("C20", ver, seed, k)
    lay = layout.load()
    lims = limiters(lay.formats[ver]["sstat"])
    smps = []
    for n in range(4):
        s = sample(ver, r, tasks=[2, 0, 5, 1][n], rich=False, level=n % 2 * 6, cgroups=[[(8, 2), (16, 3)], [], [(8, 1)], None][n])
        set_limiters(s, r, 100, lims, lambda *a: r.choice([0, 1]))
        smps.append(s)
    n = 60 if tier == "quick" else 300
    logs = [Log(ver, smps * (n // 4)), Log(ver, smps * 6 + [gen.sample(ver, r, tasks=1, cgroups=[(8, 1)])])]
    logs[1].samples[-1].damage[1] = lambda z: b"\xff" * len(z)
    # All samples different.
    own = []
    for x in range(40 if tier == "quick" else 120):
        s = sample(ver, r, tasks=x % 3, rich=False, level=0, cgroups=[[], [(8, 2)]][x % 2])
        set_limiters(s, r, 100, lims, lambda *a: r.choice([0, 1]))
        own.append(s)
    logs.append(Log(ver, own))
    # Many tasks and groups of processes in each sample.
    heavy = []
    for x in range(3):
        s = sample(ver, r, tasks=250 + x, rich=False, level=1, cgroups=[(240, 0)] * 300 + [(8, 9000)])
        set_limiters(s, r, 100, lims, lambda *a: 0)
        heavy.append(s)
    logs.append(Log(ver, heavy * 14))
    for lg in logs:
        lg.build()
    traces = []

    def add(id_, how, st, keep=(), most=10 ** 6, every=7, **it):
        ops = [["header", 1]] if "steps" in how or not it.get("hdr") else []

        def script(run_, *a):
            if "steps" in how:
                run_.op_header(1)
            else:
                if not it.get("hdr"):
                    run_.op_header(1)
                run_.op_iter(1, **it)
            walk(run_, how, most, list(keep), every, f"{seed}{k}{ver}{id_}")
        traces.append({"id": f"{ver}-{k}-{id_}", "str": [st], "ops": [], "script": script})

    end = len(logs[0].data)
    add("mem", {"dict"}, stream(1), hdr=True)
    add("file", {"rows", "drop"}, stream(1, src="file"), keep=(1, 5))
    add("gz", {"dict", "rows"}, stream(1, src=r.choice(["gz", "gzfile"])), every=11)
    add("pipe", {"look", "drop"}, stream(1, src="pipe"), keep=(3,))
    add("limit", {"dict", "drop"}, stream(1), limit=31, keep=range(2, 40, 5))
    add("quiet", {"rows"}, stream(1, end - r.randrange(1, 400)), raise_=False)
    add("cut", {"look"}, stream(1, end - r.randrange(1, 400)), raise_=True)
    add("bad", {"dict"}, stream(2), raise_=r.choice([True, False, None]))
    add("away", {"abandon"}, stream(1), most=25, keep=(2,))
    add("closed", {"abandon", "close", "drop"}, stream(1, src="file"), most=29)
    add("own", {"dict"}, stream(3, src=r.choice(["mem", "file"])))
    add("heavy", set(), stream(4, src=r.choice(["mem", "file", "gz"])), keep=r.choice([(), (2,)]), every=9)
    add("ownsteps", {"steps", "rows"}, stream(3, src=r.choice(["mem", "gz"])), most=len(own))
    steps = n - (0 if tier == "quick" else 100)
    add("steps", {"steps", "dict"}, stream(1), most=min(steps, len(logs[0].samples)))
    return {"logs": logs, "traces": traces, "seconds": 200}


def files(arg):
    """The command closes what it opens."""
    _, seed, k, tier = arg
    r = rng("C20files", seed, k)
    logs = []
    for v in r.sample(gen.versions(), 4):
        lg = gen.small(v, r, 1, tasks=1, cgroups=[])
        set_limiters(lg.samples[0], r, 100, limiters(layout.load().formats[v]["sstat"]), lambda *a: 0)
        logs.append(lg)
    traces = []
    for n in range(3):
        names = [[1 + x % len(logs), f"d{x}/log" + (".gz" if (x + n) % 3 == 0 else "")] for x in range(20 + n)]
        if n == 1:
            names.insert(r.randrange(len(names)), [["text", n], "dd/other"])
        labs = [] if n == 0 else r.sample(LABELS, 1)
        run_ = [["cli", names, labs, {"style": r.randrange(16)}] if labs else ["cli", names, {"style": r.randrange(16)}]]
        # Once to load all modules.
        traces.append(trace(f"files{k}-{n}", [["cli", names[:3]], ["files", {"first": True}], *run_, ["files"]], *[stream(x + 1) for x in range(len(logs))]))
    return {"logs": logs, "traces": traces, "seconds": 60}
