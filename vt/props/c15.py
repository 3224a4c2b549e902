"""Parseable rows of processes of 1.26 logs: every label over task lists of all lengths, patterned and extreme values,
all header flags, names, command lines and states of every kind of text."""

from .. import layout
from ..content import View
from ..gen import rng, sample, trace
from ..logs import Log, header
from ..run import stream
from .c13 import number, text

VER = "1.26"
LABELS = ["PRC", "PRD", "PRG", "PRM", "PRN"]


def models(tier):
    return [("MCParse", "MCParse" if tier == "quick" else "MCParse3"), ("MCText", "MCText")]


def batches(tier, seed):
    return [(seed, k, tier) for k in range(16 if tier == "quick" else 64)]


def make(arg):
    seed, k, tier = arg
    r = rng("C15", seed, k)
    lay = layout.load()
    logs, traces = [], []

    def one(n, tasks):
        s = sample(VER, r, tasks=tasks, rich=n % 2 == 0,
                   record={} if n % 2 else {"curtime": r.choice([0, -1, (1 << 63) - 1, 1 << 31]), "interval": r.choice([0, 1 << 31, -1])})
        leaves = list(lay.leaves(s.f["tstat"], lambda f: [0]))
        if n % 3 == 2:
            s.ts.seed = -r.choice([0, 255, 128, 127])
        for x in range(tasks):
            v = s.view("ts", x)
            for p in leaves:
                off, t, kind, c = lay.at(s.f["tstat"], *p)
                if kind == "str":
                    v.set(*p, text(r, c))
                elif p == ["gen", "state"]:
                    v.set(*p, bytes([r.choice(b"SRDZTEW\0\xff\x80\xc3 ")]))
                elif n % 2:
                    w = lay.width(t)
                    v.set(*p, number(r, t, w) if n % 4 == 1 else r.randrange(1 << (8 * w - 1)))
        return s

    for n in range(8 if tier == "quick" else 24):
        smps = [one(n, r.choice([0, 1, 2, 3, 5, 9])), one(n + 1, r.choice([1, 2, 4, 30 if n % 4 == 0 else 3]))]
        hdr = header(VER, seed=r.randrange(1, 60000) if n % 2 else 0)
        flags = n + 8 * (k % 2) if n < 16 else r.randrange(1 << 31)
        View(lay, lay.formats[VER]["header"], hdr).set("supportflags", (flags | (r.choice([0, -256, 1 << 20])))).set("hertz", r.choice([0, 100, 250, 65535])).set("pagesize", r.choice([0, 4096, 65536, (1 << 32) - 1]))
        logs.append(Log(VER, smps, hdr=hdr))
        labels = LABELS * 2
        r.shuffle(labels)
        ops = [["header", 1], ["iter", 1], ["next", 1], ["next", 1]]
        for m, lab in enumerate(labels):
            ops.append(["rows", 1, 1 + (m + n) % 2, lab])
        ops += [["rowsmix"] + [[1, r.choice([1, 2]), lab] for lab in r.sample(LABELS, 3)] + [[1, r.choice([1, 2]), r.choice(LABELS)]]]
        ops += [["rows", 1, 2, lab] for lab in LABELS] + [["held", 1, 1], ["held", 1, 2]]
        traces.append(trace(f"{k}-{n}", ops, stream(len(logs))))
    return {"logs": logs, "traces": traces}
