"""Sources that fail with errors of their own at any byte of a log (once, or until they are mended), and readers that are
interrupted at any call they make: while the header is read, within iterations and direct calls, while converting; what is
read once the stream was put back; other readers at the same time; and the command. Histories generated by TLC (GenFault),
and sweeps over every part of larger logs."""

import gzip
import zlib

from .. import gen, layout, spec_gen, tla
from ..gen import rng, sample
from ..logs import Log
from ..run import ERRORS, stream
from .c14 import LABELS

KINDS = sorted(ERRORS)
BUFFERED = [k for k in KINDS if k != "again"]   # Python's own buffers try again on these


def models(tier):
    return [("MCFault", "MCFault"), ("MCFault", "MCFaultPair")]


def batches(tier, seed):
    num = 500 if tier == "quick" else 6000
    r = tla.run("GenFault", "GenFault", workers=1, heap="2g", extra=["-simulate", f"num={num}", "-depth", "160", "-seed", str(seed)])
    g = [x for _, x in sorted({repr(x): x for x in tla.printed(r["text"], "GEN ")}.items())]
    rng("C25", seed).shuffle(g)
    res = [("spec", seed, k, g[k::8]) for k in range(8)]
    return res + [("own", v, seed, k, tier) for k in range(1 if tier == "quick" else 8) for v in gen.versions()]


def scripted(runner, hist, f, key):
    """A history of the specification."""
    r, lg = rng(*key), runner.logs[runner.streams[0]["log"] - 1]
    names = {1: "sstat", 2: "tstat", 3: "cstat"}
    part = lambda i, b: 0 if i == 0 else lg.bounds[i - 1][b] if i <= len(lg.bounds) else len(lg.data)
    bad, k, where = None, 0, (0, 0)

    def call(stop, *op):
        error = r.choice(KINDS)
        if stop is not None:
            return runner.op_fails(1, {"bad": stop, "error": error, "once": True}, *op)
        if bad is not None:
            return runner.op_fails(1, {"bad": bad, "error": error}, *op)
        return getattr(runner, "op_" + op[0])(1, *op[1:])

    for n, e in enumerate(hist):
        a = e["a"]
        if a == "break":
            bad = 0 if e["to"] == 0 else spec_gen.offset(lg, f, e["to"], r) if e["to"] > f["hdr"] else r.choice([479, 480][e["to"] // f["hdr"]:]) if e["to"] else 0
        elif a == "mend":
            bad = None
        elif a == "iter":
            if not runner.op_iter(1, e["limit"], e["raise"], e["hdr"]):
                return
            k += 1
        elif a == "back":
            runner.op_back(1, e["i"], e["b"])
            where = e["i"], e["b"]
        elif a == "next":
            then = hist[n + 1] if n + 1 < len(hist) and hist[n + 1]["a"] == "interrupt" else None
            call(part(then["i"], then["b"]) if then else None, "next", k)
        elif a != "interrupt":
            i = 0 if a == "header" else len(runner.samples[1]) + 1
            call(part(i, e["b"]) if e.get("stop") else None, {"header": "header", "record": "record"}.get(a) or names[e["b"]])


def go_on(runner, lg, i, hdr, r, k):
    """The stream is put back to sample i (0: the header), and read to its end."""
    runner.op_back(1, i)
    n = len(lg.samples)
    if i == 0 and not hdr:
        if not runner.op_header(1):
            return
        i = 1
    if i and i <= n and not lg.samples[i - 1].endmark and r.random() < 0.3:
        if not runner.op_steps(1):
            return
    if runner.op_iter(1, None, r.choice([None, False]), i == 0):
        runner.op_all(1, k + 1)


def at_header(runner, hdr, how):
    return hdr and not runner.samples[1] and ("turn" in how or how.get("bad") is None or how["bad"] < 480)


def iterating(runner, lg, how, raise_, hdr, again, n, key):
    """Iterate; the source fails in every call (or is mended by itself), or the n-th call is interrupted."""
    r, k = rng(*key), 1
    if not hdr and not runner.op_header(1):
        return
    if not runner.op_iter(1, None, raise_, hdr):
        return
    zipped = runner.streams[0]["src"] == "failsgz"
    for turn in range(len(lg.samples) + 2):
        if n is None or turn == n:
            ok = runner.op_fails(1, how, "next", k)
        else:
            ok = runner.op_next(1, k)
        if not ok:
            break
    if runner.ev[-1]["out"] != "fault":
        if runner.ev[-1]["out"] == "end" and not zipped:
            runner.op_next(1, k)
        return
    if zipped:
        return      # a gzip stream of Python does not work again after its source failed
    if r.random() < 0.3 and "turn" not in how:
        # Only what is asked of the source counts: as long as it fails, trying again does not help.
        i = 0 if at_header(runner, hdr, how) else len(runner.samples[1]) + 1
        for _ in range(again):
            runner.op_back(1, i)
            hdr = i == 0
            runner.op_iter(1, None, raise_, hdr)
            k += 1
            if runner.op_fails(1, dict(how, once=False), "next", k) or runner.ev[-1]["out"] != "fault":
                return
    i = 0 if hdr and not runner.samples[1] else len(runner.samples[1]) + 1
    go_on(runner, lg, i, i == 0 and r.random() < 0.7, r, k)
    runner.op_others()


def stepping(runner, lg, how, n, key):
    """Direct calls, of which the n-th fails, is repeated, and reading goes on."""
    r, turn = rng(*key), 0
    blocks = ["record", "sstat", "tstat"] + (["cstat"] if layout.load().cgroups(lg.ver) else [])
    calls = ["header"] + blocks * len(lg.samples)
    at = 0
    while at < len(calls):
        i, b = (0, 0) if at == 0 else ((at - 1) // len(blocks) + 1, (at - 1) % len(blocks))
        if turn == n or n is None:
            ok = runner.op_fails(1, how, calls[at])
        else:
            ok = getattr(runner, "op_" + calls[at])(1)
        turn += 1
        if ok:
            at += 1
            continue
        if runner.ev[-1]["out"] != "fault":
            return
        n = -1      # it happens once
        if b and r.random() < 0.5:
            runner.op_back(1, i, 0)
            at -= b
        else:
            runner.op_back(1, i, b)
    runner.op_iter(1)
    runner.op_all(1)
    runner.op_others()


def every(runner, lg, direct, hdr, key):
    """Interrupted at every call there is, one after the other, and repeated until it succeeds."""
    r = rng(*key)
    blocks = ["record", "sstat", "tstat"] + (["cstat"] if layout.load().cgroups(lg.ver) else [])
    calls = [("header", 0, 0)] + [(x, i + 1, b) for i in range(len(lg.samples)) for b, x in enumerate(blocks)] if direct else None
    if not direct:
        calls = [("next", 0 if hdr and i == 0 else i + 1, 0) for i in range(len(lg.samples))]
        if not hdr and not runner.op_header(1):
            return
    k, live = 1, False
    for x, i, b in calls:
        turn, over = 0, False
        while True:
            if x == "next" and not live:
                if not runner.op_iter(1, None, r.choice([None, False]), i == 0):
                    return
                live = True
            how = {"turn": turn, "error": r.choice(["key", "memory", "exit", "own", "io"])}
            ok = runner.op_fails(1, how, x, *([k] if x == "next" else []))
            if ok:
                break
            if runner.ev[-1]["out"] != "fault":
                return
            if not direct:
                k, live = k + 1, False
            turn += 1 if turn < 40 else r.randrange(1, 9)
            # With the header at first, it may have been read or not: what follows starts at the header again.
            runner.op_back(1, i, b)
    runner.op_iter(1)
    runner.op_all(1, k + 1 if not direct else 1)
    runner.op_others()


def two(runner, lg, how, n, key):
    """While one reader meets a failure, another goes on as if nothing were."""
    r = rng(*key)
    for h in (1, 2):
        if not runner.op_header(h) or not runner.op_iter(h, None, r.choice([None, False])):
            return
    for turn in range(len(lg.samples) + 1):
        first = runner.op_fails(1, how, "next", 1) if turn >= n else runner.op_next(1)
        runner.op_next(2)
        if not first:
            break
    if runner.ev[-2]["out"] == "fault":
        go_on(runner, lg, len(runner.samples[1]) + 1, False, r, 1)
    runner.op_all(2)
    runner.op_others()


def converting(runner, lg, key):
    """Conversions that are interrupted, and then done."""
    r = rng(*key)
    if not runner.op_header(1) or not runner.op_iter(1) or not runner.op_next(1):
        return
    parts = [("hdr", 0), ("rec", 0), ("ss", 0)] + [("ts", 1)] * bool(runner.samples[1][0][2]) + [("cg", 1)] * bool(runner.samples[1][0][3])
    for p, x in parts:
        for turn in (0, 1, r.randrange(2, 30), r.randrange(300)):
            runner.op_stopped(1, turn, r.choice(["key", "memory", "exit"]), lambda t: t.ap.struct_to_dict(t.obj(1, 1, p, x)))
        runner.op_dict(1, 1, p, x, json_too=False)
    if lg.ver == "1.26":
        for lab in LABELS:
            runner.op_stopped(1, r.randrange(6), r.choice(["key", "memory"]), lambda t: list(t.parse(1, 1, lab)))
            runner.op_rows(1, 1, lab)
    runner.op_all(1)


def command(runner, files, kw, hits):
    runner.op_cli(files, hits=hits, **kw)


def wrong_sum(data, which=0):
    """A gzip file whose checksum (or length) is not that of its contents."""
    z = bytearray(gzip.compress(data, 6, mtime=0))
    z[-8 + 4 * which] ^= 0x10
    return bytes(z)


def summed(runner, lg, raise_, hdr):
    """A gzip file whose checksum is wrong: every sample, then the error."""
    if not hdr and not runner.op_header(1):
        return
    runner.op_iter(1, None, raise_, hdr)
    for _ in lg.samples + [None]:
        if not runner.op_next(1):
            break
    # The error is the source's own.
    for e in runner.ev:
        if e["a"] == "next":
            e["bad"] = len(lg.data)
            e["out"] = "fault" if e["out"] == "BadGzipFile" else e["out"]


def make(arg):
    if arg[0] == "spec":
        _, seed, part, group = arg
        r = rng("C25", "spec", seed, part)
        m, traces = spec_gen.Maker(r), []
        plain = [v for v in gen.versions() if v not in gen.cg_versions()]
        for n, b in enumerate(group):
            f = b["log"][0]
            pick = gen.cg_versions() if f["cg"] else plain
            k = m.log(f, pick[n // 5 % len(pick)])
            lg = m.logs[k - 1]
            avail = -1 if f["avail"] == spec_gen.full(f) else spec_gen.offset(lg, f, f["avail"], r)
            if avail >= 0:
                f = dict(f)
            traces.append({"id": f"spec{part}.{n}", "str": [stream(k, avail, src="fails")], "script": scripted,
                           "args": (b["hist"], f, (seed, part, n))})
        return {"logs": m.logs, "traces": traces}
    _, ver, seed, k, tier = arg
    r = rng("C25", ver, seed, k)
    logs = [Log(ver, [sample(ver, r, tasks=r.choice([1, 2, 3]), rich=False, level=r.choice([1, 6, 9]), cgroups=gen.cg_lists(r)) for _ in range(n)]) for n in (3, 1, 0)]
    for lg in logs:
        for s in lg.samples:
            s.view("ss").set("cpu", "nrcpu", r.choice([0, 1, 4]))
        lg.build()
    logs.append(gen.small(ver, r, 2, tasks=2, cgroups=[(8, 2)]))
    logs[-1].samples[-1].endmark = True
    traces, names = [], {}

    def add(what, script, strs, args):
        names[what] = n = names.get(what, -1) + 1
        key = (ver, seed, k, what, n)
        traces.append({"id": f"{ver}-{k}-{what}{n}", "str": strs, "script": script, "args": tuple(key if a is KEY else a for a in args)})

    KEY = object()
    kind = lambda src="fails": r.choice(KINDS if src == "fails" else BUFFERED)
    for g, lg in enumerate(logs):
        # The source fails at the start, within and at the end of every part, and behind everything.
        places = {0, 1, 3, 4, 479, 480, len(lg.data)}
        for b in lg.bounds:
            for lo, hi in zip(b, b[1:]):
                places |= {lo, hi, r.randrange(lo, hi) if hi > lo else lo, max(lo, hi - 1)}
        for place in sorted(places):
            for src in ("fails", "failsfile"):
                if src == "failsfile" and r.random() < 0.5:
                    continue
                add("at", iterating, [stream(g + 1, src=src, buf=r.choice([16, 96, 8192]))],
                    (lg, {"bad": place, "error": kind(src), "once": r.random() < 0.5}, r.choice([None, False]), r.random() < 0.5, r.choice([1, 2]), None, KEY))
            if not any(s.endmark for s in lg.samples) and place < len(lg.data):
                src = r.choice(["fails", "failsfile"])
                add("step", stepping, [stream(g + 1, src=src)], (lg, {"bad": place, "error": kind(src), "once": True}, None, KEY))
        if g > 1:
            continue
        # A gzip file over a source that fails.
        z = len(gzip.compress(lg.data, 6, mtime=0))
        for n in range(6):
            add("gz", iterating, [stream(g + 1, src="failsgz")],
                (lg, {"bad": r.choice([0, 5, z - 8, z, r.randrange(z), r.randrange(z)]), "error": kind("gz")}, r.choice([None, False]), n % 2 == 0, 1, None, KEY))
        # Interruptions.
        for n in range(24):
            add("stop", iterating, [stream(g + 1, src=r.choice(["mem", "file", "gz"]))],
                (lg, {"turn": n if n < 12 else r.randrange(40), "error": r.choice(["key", "memory", "exit", "own"])}, r.choice([None, False]), r.random() < 0.4, 1,
                 r.randrange(len(lg.samples) + 1), KEY))
        for n in range(12):
            add("stopstep", stepping, [stream(g + 1, src=r.choice(["mem", "file", "gz"]))],
                (lg, {"turn": r.randrange(8), "error": r.choice(["key", "memory", "exit"])}, r.randrange(1 + 4 * len(lg.samples)), KEY))
        for n in range(4):
            add("every", every, [stream(g + 1, src=["mem", "file", "gz"][(n + g) % 3])], (lg, n % 2 == 0, n == 3, KEY))
        for n in range(4):
            strs = [stream(g + 1, src="fails"), stream(g + 1, src=r.choice(["mem", "file"]))]
            how = {"bad": r.randrange(480, len(lg.data) + 1), "error": kind()} if n % 2 else {"turn": r.randrange(15), "error": "key"}
            add("two", two, strs, (lg, how, 0 if n % 2 else r.randrange(len(lg.samples)), KEY))
    add("convert", converting, [stream(1)], (logs[0], KEY))
    for g, lg in enumerate(logs[:2]):
        for n in range(4):
            src = stream(g + 1, src="sum", zip=lambda d, n=n: wrong_sum(d, n % 2))
            add("sum", summed, [src], (lg, [None, False][n // 2], n == 3))
    # The command.
    for n in range(8):
        files, strs, hits = [], [], {}
        total = r.choice([1, 2, 3])
        for m in range(total):
            g = r.choice([0, 1, 1, 2])
            name = f"f{m}" + r.choice(["", ".gz"])
            strs.append(stream(g + 1))
            files.append([m + 1, name])
            size = len(logs[g].data) if not name.endswith(".gz") else len(gzip.compress(logs[g].data, 6, mtime=0))
            if m == total // 2:
                if n == 0 and g < 2:
                    files[-1][1] = f"f{m}.gz"
                    strs[-1]["zip"] = wrong_sum
                    hits[m + 1] = None
                else:
                    hits[m + 1] = {"bad": r.choice([0, 100, 480, r.randrange(size + 1), r.randrange(size + 1)]), "error": kind("cli")}
        kw = {"ts": r.random() < 0.5, "cs": r.random() < 0.5, "pretty": r.random() < 0.3, "style": r.randrange(16), "sub": n == 0}
        if n > 4:
            kw["labels"] = r.sample([x for x in LABELS if x != "PRD"], 2)
        if n == 0 and not any(x is None for x in hits.values()):
            continue
        add("command", command, strs, (files, kw, hits))
    return {"logs": logs, "traces": traces, "seconds": 60}
