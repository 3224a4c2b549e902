"""Headers: every cut of a header, alterations of the magic number, version words with and without the marker
bit (known, unknown, all 65536 in the thorough tier), from all kinds of sources, given to get_header and to the
iterator; files of all versions in many orders in one process, with the values their samples then have."""

from .. import gen, layout
from ..gen import rng, trace
from ..logs import MAGIC, Log, header
from ..run import stream


def models(tier):
    return [("MCFormat", "MCFormat")]


def batches(tier, seed):
    res = [("cut", v, seed, tier) for v in gen.versions()]
    res += [("magic", v, seed, tier) for v in gen.versions()]
    parts = 16 if tier == "quick" else 64
    res += [("word", p, seed, tier, parts) for p in range(parts)]
    res += [("mix", k, seed, tier) for k in range(4 if tier == "quick" else 16)]
    res += [("order", k, seed, tier) for k in range(8 if tier == "quick" else 40)]
    return res


def heads(h, r):
    """Ways to have a header read."""
    return r.choice([[["header", h]], [["header", h, {"chk": None}]], [["header", h, {"chk": False}]],
                     [["iter", h, {"hdr": True}], ["next", h]]])


def attrs(ver):
    lay = layout.load()
    return list(lay.leaves(lay.formats[ver]["header"], lambda f: range(f["c"])))


def fallback(major, minor):
    """The supported version that a version word stands for, else the newest."""
    name = f"{major}.{minor}"
    return name if name in gen.versions() else gen.versions()[-1]


def make(arg):
    return globals()["make_" + arg[0]](*arg[1:])


def make_cut(ver, seed, tier):
    r = rng("C02cut", ver, seed)
    logs = [gen.small(ver, r, 1, tasks=1, cgroups=[(8, 1)])]
    logs[0].hdr = header(ver, seed=r.randrange(1, 60000))
    traces = []
    kinds = ["mem", "file", "pieces", "pipe", "gz", "gzfile"]
    for c in range(0, 481):
        for kind in kinds if tier == "thorough" else [kinds[(c + seed) % 6], "mem"] if c % 4 == seed % 4 or c > 470 or c < 8 else ["mem"]:
            traces.append({"id": f"{ver}-{c}-{kind}", "str": [stream(1, c, False, kind)], "ops": heads(1, r)})
    return {"logs": logs, "traces": traces}


def make_magic(ver, seed, tier):
    r = rng("C02magic", ver, seed)
    words = [MAGIC ^ (1 << b) for b in range(32)] + [0, 0xFFFFFFFF, 0xEFBEEDFE, 0xFEEDFACE, MAGIC & 0xFFFF, MAGIC >> 16, MAGIC & 0xFFFFFF]
    words += [r.randrange(1 << 32) for _ in range(10 if tier == "quick" else 500)]
    logs, traces = [], []
    for n, w in enumerate(words):
        logs.append(Log(ver, [], hdr=header(ver, seed=r.randrange(1, 60000), magic=w)))
        traces.append({"id": f"{ver}-magic{w:08x}", "str": [stream(n + 1, src=r.choice(["mem", "file", "gz"]))], "ops": heads(1, r)})
    # The real one, with all header values.
    for n in range(4):
        logs.append(gen.small(ver, r, 2))
        logs[-1].hdr = header(ver, seed=r.randrange(1, 60000))
        for src in ("mem", "file", "gz", "pieces", "pipe"):
            traces.append(trace(f"{ver}-good{n}-{src}", [["header", 1, {"attrs": attrs(ver), "chk": [None, True, False][n % 3]}],
                                                         ["iter", 1], ["all", 1]], stream(len(logs), src=src)))
    # Text and other files that are no logs.
    logs.append(Log(ver, [], hdr=header(ver, seed=r.randrange(1, 60000), magic=0x7A697067)))
    traces.append({"id": f"{ver}-other", "str": [stream(len(logs))], "ops": [["header", 1]]})
    return {"logs": logs, "traces": traces}


def make_word(part, seed, tier, parts):
    r = rng("C02word", part, seed)
    known = [tuple(int(x) for x in v.split(".")) for v in gen.versions()]
    if tier == "thorough":
        words = list(range(part, 65536, parts))
    else:
        words = [m << 8 | n for m in (0, 1, 2, 3, 4, 12, 127) for n in list(range(0, 32)) + [127, 128, 255]]
        words += [w | 0x8000 for w in words] + [r.randrange(65536) for _ in range(60)]
        words = words[part::parts]
    logs, traces = [], []
    for w in words:
        major, minor = w >> 8 & 0x7F, w & 0xFF
        ver = fallback(major, minor)
        logs.append(Log(ver, [], hdr=header(ver, seed=r.randrange(1, 60000), aversion=w)))
        vals = [["aversion"], ["magic"], ["rawheadlen"], ["pagesize"], ["utsname", "nodename"]]
        for chk in (True, False):
            traces.append({"id": f"word{w:04x}-{chk}", "str": [stream(len(logs))], "ops": [["header", 1, {"chk": chk, "attrs": vals}]]})
        if (major, minor) in known and w & 0x8000 == 0 or major == 2 and minor in (13, 14, 200):
            # Without the marker bit, and newer than the newest: the structures of the rest.
            logs.append(gen.small(ver, r, 2))
            logs[-1].hdr = header(ver, aversion=w)
            traces.append(trace(f"word{w:04x}-read", [["header", 1], ["iter", 1], ["all", 1]], stream(len(logs))))
            traces.append(trace(f"word{w:04x}-iter", [["iter", 1, {"hdr": True}], ["all", 1]], stream(len(logs))))
    return {"logs": logs, "traces": traces}


def make_mix(k, seed, tier):
    """Files of different versions, good and bad, opened one after the other and read in turns."""
    r = rng("C02mix", k, seed)
    vers = gen.versions()
    logs = [gen.log(v, r, 2, tasks=2, cgroups=[(8, 2)]) for v in vers]
    for lg in logs:
        lg.hdr = header(lg.ver, seed=r.randrange(1, 60000))
    bad = [Log(v, [], hdr=header(v, magic=MAGIC ^ 1)) for v in vers]
    traces = []
    for t in range(40 if tier == "quick" else 300):
        which = [r.randrange(len(vers)) for _ in range(4)]
        strs = [stream(w + 1) for w in which]
        ops = []
        order = list(range(1, 5))
        r.shuffle(order)
        for h in order:
            ops += [["header", h, {"attrs": attrs(vers[which[h - 1]])}]]
        r.shuffle(order)
        for i in (1, 2):
            for h in order:
                ops += [["steps", h]] + gen.probe(r, vers[which[h - 1]], h, i, logs[which[h - 1]].samples[i - 1])
        traces.append({"id": f"mix{k}.{t}", "str": strs, "ops": ops})
        # A refused file in between changes nothing.
        strs = [stream(which[0] + 1), stream(len(vers) + which[1] + 1), stream(which[2] + 1), stream(which[0] + 1)]
        traces.append({"id": f"bad{k}.{t}", "str": strs, "script": past_refusal})
    return {"logs": logs + bad, "traces": traces}


def make_order(k, seed, tier):
    """Logs of all versions in one process, every version once before every version that is as long."""
    r = rng("C02order", k, seed)
    vers = gen.versions()[:]
    if k == 1:
        vers.reverse()
    elif k:
        r.shuffle(vers)
    logs = [gen.log(v, r, 2, tasks=2, cgroups=[(8, 2)]) for v in vers]
    for lg in logs:
        lg.hdr = header(lg.ver, seed=r.randrange(1, 60000))
    traces = []
    for turn in range(3):
        for n, lg in enumerate(logs, 1):
            ops = ([["header", 1, {"chk": [None, True, False][turn], "attrs": attrs(lg.ver)}]]) if (n + k) % 3 else []
            ops += [["steps", 1], ["iter", 1]] if ops and turn == 1 else [["iter", 1, {"hdr": not ops}], ["next", 1]]
            ops += [["next", 1]] + gen.probe(r, lg.ver, 1, 1, lg.samples[0]) + gen.probe(r, lg.ver, 1, 2, lg.samples[1])
            for p in ("rec", "ts"):
                ops.append(["dict", 1, 1, p, int(p == "ts")])
            traces.append(trace(f"order{k}.{turn}.{lg.ver}", ops, stream(n)))
    return {"logs": logs, "traces": traces}


def past_refusal(r):
    r.op_header(1)
    r.op_header(2)
    r.op_header(3)
    r.op_steps(1)
    r.op_iter(4, hdr=True)
    r.op_all(4)
    r.op_iter(3)
    r.op_all(3)
    r.op_iter(1)
    r.op_all(1)
