"""Complete logs of every version, with all kinds of record values, counts, block lengths and compression
levels, iterated over; logs and calls also generated from the specification by TLC."""

from .. import gen, spec_gen
from ..gen import full_run, log, rng, sample, small, trace
from ..logs import Log
from ..run import stream


def models(tier):
    return [("MCReader", "MCFrame" if tier == "quick" else "MCReader")]


def batches(tier, seed):
    res = [("own", v, seed + k) for v in gen.versions() for k in range(1 if tier == "quick" else 12)]
    return res + spec_gen.batches("frame", tier, seed)


def make(arg):
    if arg[0] != "own":
        return spec_gen.make(arg)
    _, ver, seed = arg
    r = rng("C04", ver, seed)
    logs, traces = [], []

    def add(id_, lg, *variants):
        logs.append(lg)
        for k, v in enumerate(variants):
            traces.append(trace(f"{ver}-{id_}-{k}", v, stream(len(logs))))

    add("empty", Log(ver), full_run(), full_run(False), full_run(hdr=True))
    add("one", log(ver, r, 1), full_run(), full_run(True, hdr=True))
    add("mixed", log(ver, r, 4), full_run(), full_run(False, hdr=True))
    # Every unusual record between two usual ones.
    for k, rec in enumerate(gen.RECORDS):
        a, b, c = small(ver, r, 3).samples
        gen.set_record(b, rec)
        add(f"rec{k}", Log(ver, [a, b, c]), full_run(hdr=k % 2 == 0, raise_=[None, False][k // 2 % 2]))
    # Unusual first and last records too.
    for k, rec in enumerate(gen.RECORDS[1:6]):
        a, b = small(ver, r, 2).samples
        gen.set_record(a, rec)
        gen.set_record(b, rec)
        add(f"all-rec{k}", Log(ver, [a, b]), full_run())
    # Many samples, all levels of compression, wide variation of list lengths.
    add("many", small(ver, r, 30, tasks=0), full_run())
    add("levels", Log(ver, [sample(ver, r, rich=False, level=lv) for lv in range(10)]), full_run())
    add("counts", Log(ver, [sample(ver, r, rich=False, tasks=t, level=1) for t in (0, 300, 0, 1, 40)]), full_run(), full_run(hdr=True))
    # Two equal samples in a row are two samples.
    s = sample(ver, r, rich=False)
    add("equal", Log(ver, [s, s, s]), full_run())
    # The end mark ends a log even if more follows.
    a, b, c = small(ver, r, 3).samples
    b.endmark = True
    add("mark", Log(ver, [a, b, c]), full_run(), full_run(False))
    return {"logs": logs, "traces": traces}
