"""Logs that are read while they are still being written: growth between and within the calls of the reader, of every size
(complete samples, parts of them, byte by byte), iterations one after the other with every setting, and direct calls; in
memory, in files, and gzip files to which members are added. Histories generated by TLC (GenFollow), and long ones."""

from .. import gen, layout, spec_gen, tla
from ..gen import rng, sample
from ..logs import Log
from ..run import stream

def models(tier):
    return [("MCFollow", "MCFollow"), ("MCFollow", "MCFollowWhole")]


def behaviours(cfg, seed, num):
    r = tla.run("GenFollow", cfg, workers=1, heap="2g", extra=["-simulate", f"num={num}", "-depth", "160", "-seed", str(seed)])
    res = sorted({repr(g): g for g in tla.printed(r["text"], "GEN ")}.items())
    return [g for _, g in res]


def batches(tier, seed):
    res = []
    for cfg, num in (("GenFollow", 250), ("GenFollowWhole", 150)):
        g = behaviours(cfg, seed, num if tier == "quick" else 10 * num)
        rng("C21", cfg, seed).shuffle(g)
        res += [("spec", cfg, seed, k, g[k::8]) for k in range(8)]
    return res + [("own", v, seed, k, tier) for k in range(1 if tier == "quick" else 8) for v in gen.versions()]


def follow(runner, hist, f, lg, r):
    """A history of the specification."""
    place = lambda to: spec_gen.offset(lg, f, to, r)
    k, m, hdr = 0, 0, True
    seen = runner.streams[0]["avail"]
    while m < len(hist):
        e = hist[m]
        m += 1
        if e["a"] == "iter":
            hdr = e["hdr"]
            if not hdr:
                runner.header(1)
            if not runner.op_iter(1, e["limit"], e["raise"], hdr):
                return
            k += 1
        elif e["a"] == "grow":
            to = place(e["to"])
            if to > seen:
                runner.op_grow(1, to)
                seen = to
        else:
            at = {}
            while m < len(hist) and hist[m]["a"] == "grow" and hist[m]["busy"]:
                to = place(hist[m]["to"])
                if to > seen:
                    at[hist[m]["part"] + (1 if hdr else 0)] = to
                    seen = to
                m += 1
            ok = runner.op_nextgrow(1, k, at) if at else runner.op_next(1, k)
            hdr = False
            if not ok and runner.ev[-1].get("out", "end") not in ("sample", "end"):
                return
            if not ok and gone(runner):
                return


def gone(runner):
    """Whether the last end was in the middle of a sample, so that the stream is of no further use."""
    lg = runner.logs[runner.streams[0]["log"] - 1]
    ends = [480] + [b[-1] for b in lg.bounds]
    return runner.pos(1) not in ends + [-1] or any(e["a"] == "next" and e["out"] not in ("sample", "end") for e in runner.ev)


def tail(runner, lg, r, way):
    """A log that grows to its end, read by one iteration after the other."""
    ends = [480] + [b[-1] for b in lg.bounds]
    src = runner.streams[0]["src"]
    within = src in ("grows", "growsfile") and way != "steps"
    seen, k, got = 480, 0, 0
    if not runner.op_header(1):
        return
    for _ in range(200):
        if got == len(lg.samples):
            break
        # Complete samples only, as long as the stream is to be gone on with.
        left = [x for x in ends if x > seen]
        if left and r.random() < 0.6:
            to = left[min(len(left), r.choice([1, 1, 1, 2, 3])) - 1]
            runner.op_grow(1, to)
            seen = to
        if way == "steps" and got + 1 < len(ends) and ends[got + 1] <= seen and r.random() < 0.5:
            if not runner.op_steps(1):
                return
            got += 1
            continue
        limit = r.choice([None, None, 1, 2, 0])
        if not runner.op_iter(1, limit, r.choice([None, False])):
            return
        k += 1
        for _ in range(r.choice([1, 2, 9])):
            left = [x for x in ends if x > seen]
            if within and left and r.random() < 0.3:
                at, n = {}, 0
                x = left[0]
                b = lg.bounds[ends.index(x) - 1]
                if r.random() < 0.7:
                    at[r.choice([0, 1])] = x
                else:
                    # Part by part, each right before it is read, if the reader is there.
                    if got + 1 == ends.index(x):
                        for j, o in enumerate(b[1:]):
                            if o > seen and j not in at and (j == 0 or o != b[j]):
                                at[j] = o
                    else:
                        at[0] = x
                seen = x
                ok = runner.op_nextgrow(1, k, at)
            else:
                if left and r.random() < 0.3:
                    runner.op_grow(1, left[0])
                    seen = left[0]
                ok = runner.op_next(1, k)
            if not ok:
                if last(runner)["out"] != "end" or gone(runner):
                    return
                if r.random() < 0.3:
                    # An iteration that has ended stays ended.
                    if left and r.random() < 0.5 and left[0] > seen:
                        runner.op_grow(1, left[0])
                        seen = left[0]
                    runner.op_next(1, k)
                break
            got += 1
    runner.op_others()


def last(runner):
    return [e for e in runner.ev if e["a"] == "next"][-1]


def half(runner, lg, r, raise_):
    """What is there of an unfinished sample is never delivered; from the start again, everything is."""
    i = r.randrange(len(lg.samples))
    b = lg.bounds[i]
    cut = r.choice([b[0] + 1, b[1] - 1, b[1], b[1] + 1, b[-1] - 1, r.randrange(b[0] + 1, b[-1])])
    runner.op_grow(1, cut)
    runner.op_iter(1, None, raise_, True)
    runner.op_all(1)
    runner.op_grow(1, len(lg.data)) if cut < len(lg.data) else None
    runner.op_open(2)
    runner.op_iter(2, None, raise_, True)
    runner.op_all(2)
    runner.op_others()


def make(arg):
    if arg[0] == "spec":
        _, cfg, seed, part, group = arg
        r = rng("C21", cfg, seed, part)
        m, traces = spec_gen.Maker(r), []
        plain = [v for v in gen.versions() if v not in gen.cg_versions()]
        for n, b in enumerate(group):
            f = b["log"][0]
            pick = gen.cg_versions() if f["cg"] else plain
            k = m.log(f, pick[n // 5 % len(pick)])
            inside = any(e["a"] == "grow" and e["busy"] for e in b["hist"])
            src = r.choice(["grows", "growsfile"] if inside else ["grows", "growsfile", "growsbuf"] + ["growsgz"] * (cfg == "GenFollowWhole"))
            traces.append({"id": f"{cfg}{part}.{n}", "str": [stream(k, 480, src=src)], "script": scripted, "args": (k, b["hist"], f, (seed, part, n))})
        return {"logs": m.logs, "traces": traces}
    _, ver, seed, k, tier = arg
    r = rng("C21", ver, seed, k)
    logs, traces = [], []
    for g, n in enumerate((5, 9)):
        lg = Log(ver, [sample(ver, r, tasks=r.choice([0, 1, 3]), rich=False, level=r.choice([1, 6, 9]), cgroups=gen.cg_lists(r)) for _ in range(n)])
        logs.append(lg)
        for x in range(24 if tier == "quick" else 60):
            src = ["grows", "growsfile", "growsbuf", "growsgz"][x % 4]
            way = "steps" if x % 3 == 0 else "iter"
            traces.append({"id": f"{ver}-tail{g}.{x}", "str": [stream(g + 1, 480, src=src)], "script": tailing, "args": (g, (ver, seed, k, g, x), way)})
        for x in range(10):
            traces.append({"id": f"{ver}-half{g}.{x}", "str": [stream(g + 1, 480, src=["grows", "growsfile"][x % 2]), stream(g + 1, late=True)],
                           "script": halves, "args": (g, (ver, seed, k, g, x), [None, False][x // 2 % 2])})
    return {"logs": logs, "traces": traces, "seconds": 60}


def scripted(runner, k, hist, f, key):
    follow(runner, hist, f, runner.logs[k - 1], rng(*key))


def tailing(runner, g, key, way):
    tail(runner, runner.logs[g], rng(*key), way)


def halves(runner, g, key, raise_):
    half(runner, runner.logs[g], rng(*key), raise_)
