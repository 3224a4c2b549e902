"""Mixtures of direct calls and (abandoned) iterations on one stream, for every version; histories mostly
generated from the specification by TLC, values compared with those of an iteration."""

from .. import gen, layout, spec_gen
from ..gen import rng, trace
from ..run import stream


def models(tier):
    return [("MCReader", "MCLimit2" if tier == "quick" else "MCLimit")]


def batches(tier, seed):
    return [("own", v, seed + k, tier) for v in gen.versions() for k in range(1 if tier == "quick" else 10)] \
        + spec_gen.batches("hist", tier, seed)


def make(arg):
    if arg[0] == "spec":
        return spec_gen.make(arg)
    _, ver, seed, tier = arg
    r = rng("C10", ver, seed)
    logs = [gen.log(ver, r, 3), gen.small(ver, r, 6, tasks=2), gen.log(ver, r, 2, rich=False, tasks=40, cgroups=None)]
    parts = ["record", "sstat", "tstat"] + (["cstat"] if layout.load().cgroups(ver) else [])
    traces = []
    for k in (1, 2, 3):
        n = len(logs[k - 1].samples)
        src = ["mem", "file", "gz", "pieces", "pipe"]
        # Every sample by direct calls.
        traces.append(trace(f"{ver}-{k}-steps", [["header", 1]] + [["steps", 1]] * n + [["iter", 1], ["all", 1]], stream(k, src=src[k])))
        # Direct calls, then the iterator, with every split.
        for j in range(n + 1):
            ops = [["header", 1]] + [["steps", 1]] * j + [["iter", 1], ["all", 1]]
            traces.append(trace(f"{ver}-{k}-split{j}", ops, stream(k, src=r.choice(src))))
            # The iterator, abandoned, then direct calls, then another iterator.
            ops = [["header", 1], ["iter", 1]] + [["next", 1]] * j + [["close", 1]] + [["steps", 1]] * min(1, n - j) + [["iter", 1], ["all", 1, 2]]
            traces.append(trace(f"{ver}-{k}-left{j}", ops, stream(k, src=r.choice(src))))
        # Two iterators and direct calls taking turns.
        ops = [["header", 1], ["iter", 1], ["iter", 1, {"raise_": False}]]
        for j in range(n):
            ops += [["next", 1, 1], ["next", 1, 2], ["steps", 1]][j % 3 : j % 3 + 1]
        traces.append(trace(f"{ver}-{k}-turns", ops + [["all", 1, 2], ["all", 1, 1]], stream(k)))
    # A log that starts in the middle of its source, or whose header is elsewhere.
    for n, (pre, headless) in enumerate([(1, False), (480, False), (1000, False), (-3, False), (0, True), (77, True), (-2, True), (600, True)]):
        for src in ("mem", "file", "gz", "pieces") if tier == "thorough" else (["mem", "file", "gz", "pieces"][(n + seed) % 4], "mem"):
            j = r.randrange(0, 7)
            k = r.choice([2, 3]) if pre == -3 else 2
            st = stream(k, src=src, pre=pre, headless=headless)
            first = [["header", 1]] if headless or r.random() < 0.5 else []
            left = len(logs[k - 1].samples)
            ops = first + [["iter", 1, {"hdr": not first}]] + [["next", 1]] * min(j, left)
            if first or j:
                ops += [["steps", 1]] * min(1, left - j) + [["iter", 1, {"limit": 1}], ["next", 1, 2], ["iter", 1], ["all", 1, 3]]
            else:
                ops += [["all", 1]]
            traces.append(trace(f"{ver}-within{n}-{src}", ops, st))
            traces.append(trace(f"{ver}-within{n}-{src}-steps", [["header", 1, r.choice([True, False, False])]] + [["steps", 1]] * left + [["iter", 1], ["all", 1]], st))
    # Several streams of a log, read with one header.
    for n in range(3 if tier == "quick" else 12):
        strs = [stream(2, src=r.choice(["mem", "file"]))] + [stream(2, src=r.choice(["mem", "file", "gz"]), headless=True, hdrof=1) for _ in range(2)]
        todo = {h: 6 for h in (1, 2, 3)}
        ops = [["header", h] for h in (1, 2, 3)]
        how = {h: r.random() < 0.5 for h in todo}
        ops += [["iter", h] for h in todo if how[h]]
        while any(todo.values()):
            h = r.choice([h for h in todo if todo[h]] if n else [h for h in todo if todo[h]][:1])
            todo[h] -= 1
            ops.append(["next", h] if how[h] else ["steps", h])
        ops += [op for h in todo for op in ([["all", h]] if how[h] else [["iter", h], ["all", h]])]
        traces.append(trace(f"{ver}-shared{n}", ops, *strs))
    return {"logs": logs, "traces": traces}
