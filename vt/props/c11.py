"""Several readers over logs of several versions taking turns (also inside one another's reads and, between any two
instructions, inside reads and conversions), earlier results looked at again after every later one, results
overwritten one by one, the same bytes read again; turns also generated from the specification by TLC."""

from .. import gen, layout, spec_gen
from ..gen import rng, sample, trace
from ..logs import Log, header
from ..run import Other, Preempt, stream


def models(tier):
    return [("MCReader", "MCPair1" if tier == "quick" else "MCPair")]


def batches(tier, seed):
    n = 11 if tier == "quick" else 44
    return [("turns", k, seed, tier) for k in range(n)] + [("held", v, seed, tier) for v in gen.versions()] \
        + spec_gen.batches("pair", tier, seed)


def make(arg):
    if arg[0] == "spec":
        return spec_gen.make(arg)
    return globals()["make_" + arg[0]](*arg[1:])


def some_logs(r, vers, n=3):
    res = []
    for v in vers:
        lg = Log(v, [sample(v, r, rich=k == 0, tasks=r.choice([0, 1, 2, 3]), cgroups=[(8, 2), (16, 0), (8, 1)]) for k in range(n)],
                 hdr=header(v, seed=r.randrange(1, 60000)))
        res.append(lg)
    return res


def look(r, logs, strs, h, i):
    """Operations that look at a delivered sample in some way."""
    lg = logs[strs[h - 1]["log"] - 1]
    s = lg.samples[i - 1]
    lay = layout.load()
    kinds = ["rec", "rec"] + (["ts"] if s.tasks else []) + (["cg"] if s.cg else [])
    p = r.choice(kinds)
    x = r.randrange(1, {"rec": 1, "ts": s.tasks, "cg": len(s.cg or ())}[p] + 1) if p != "rec" else 0
    name = {"rec": "record", "ts": "tstat", "cg": "cstat"}[p]
    leaves = list(lay.leaves(s.f[name], lambda f: [0, f["c"] - 1]))
    return [["held", h, i], ["attrs", h, i, p, x, r.sample(leaves, min(12, len(leaves)))]]


def make_turns(k, seed, tier):
    """Four readers; every one reads a log of its own or the same as another."""
    r = rng("C11", k, seed)
    vers = gen.versions()
    # Neighbouring versions share structures; 1.26 and 2.x count tasks differently.
    pick = [vers[k % len(vers)], vers[(k + 1) % len(vers)], vers[r.randrange(len(vers))], vers[r.randrange(len(vers))]]
    logs = some_logs(r, pick)
    traces = []
    for t in range(12 if tier == "quick" else 60):
        which = [0, 1, 2, 3] if t % 3 else [0, 0, 1, 2]
        strs = [stream(w + 1, src=r.choice(["mem", "file", "gz"])) for w in which]
        ops = []
        todo = {h: ["header"] + ["next"] * 4 for h in (1, 2, 3, 4)}
        step = {h: r.random() < 0.4 for h in todo}
        done = {h: 0 for h in todo}
        while any(todo.values()):
            h = r.choice([h for h in todo if todo[h]])
            what = todo[h].pop(0)
            if what == "header":
                ops.append(["header", h])
                if not step[h]:
                    ops.append(["iter", h])
                continue
            if step[h]:
                if done[h] == 3:
                    ops.append(["iter", h])
                    ops.append(["all", h, 1])
                    continue
                ops.append(["steps", h])
                done[h] += 1
            elif done[h] == 3:
                ops.append(["all", h, 1])
                continue
            else:
                ops.append(["next", h, 1])
                done[h] += 1
            q = r.choice([q for q in todo if done[q]])
            ops += look(r, logs, strs, q, r.randrange(1, done[q] + 1))
        ops += [["held", h, i] for h in todo for i in range(1, done[h] + 1)]
        traces.append(trace(f"turns{k}.{t}", ops, *strs))
        # One after the other, in the same place: same path, file descriptor and object.
        kind, ops = r.choice(["mem", "file", "gzfile", "raw", "gz"]), []
        strs = [stream(w + 1, src=kind, path="log", late=True) for w in r.sample(which, 4)]
        for h in (1, 2, 3, 4):
            hdr = r.random() < 0.4
            ops += [["open", h]] + ([] if hdr else [["header", h]])
            ops += r.choice([[["iter", h, {"hdr": hdr}], ["all", h]], [["iter", h, {"hdr": hdr}], ["next", h], ["next", h]]] + ([] if hdr else [[["steps", h]] * 2]))
            ops += [["forget", h]] if r.random() < 0.8 else []
        traces.append(trace(f"places{k}.{t}", ops, *strs))
        # Files of the same name in several directories.
        strs = [stream(w + 1, src=r.choice(["file", "gzfile"]), path=f"{h}/log") for h, w in enumerate(r.sample(which, 4))]
        ops = [["iter", h, {"hdr": True}] for h in (1, 2, 3, 4)] + [["next", h] for _ in range(4) for h in r.sample([1, 2, 3, 4], 4)]
        traces.append(trace(f"names{k}.{t}", ops, *strs))
        # Readers running inside another's reads, and between any two of its instructions.
        strs = [stream(1, src="switch")] + [stream(w + 1) for w in which[1:]]
        for n in range(2):
            traces.append({"id": f"preempted{k}.{t}.{n}", "str": strs, "script": preempted, "args": (r.randrange(1 << 30), [len(logs[x].samples) for x in which])})
        traces.append({"id": f"inside{k}.{t}", "str": strs, "script": inside, "args": (r.randrange(1 << 30), [len(logs[x].samples) for x in which])})
    return {"logs": logs, "traces": traces}


class Crowd:
    """The other readers (streams 2 and up), who go on by one call whenever they are given a turn.  They run in a thread
    of their own, so that a reader may keep them out for a while."""

    def __init__(self, r, rnd, counts, parse):
        self.r, self.rnd, self.parse = r, rnd, parse
        self.todo = {h: ["header"] + (["next"] * (counts[h - 1] + 1) if rnd.random() < 0.6 else ["steps"] * counts[h - 1]) for h in (2, 3, 4)}
        self.started, self.busy, self.other = set(), False, Other()

    def left(self):
        return any(self.todo.values())

    def turn(self):
        if not self.busy and self.left():
            self.busy = True
            self.other.run(self.one)
            self.busy = False

    def one(self):
        hs = [h for h in self.todo if self.todo[h]]
        if not hs:
            return
        h, r, rnd = self.rnd.choice(hs), self.r, self.rnd
        what = self.todo[h].pop(0)
        if what == "header":
            if self.todo[h][0] == "next" and rnd.random() < 0.5:
                r.op_iter(h, hdr=True)
                self.started.add(h)
            else:
                r.op_header(h)
        elif what == "next":
            if h not in self.started:
                r.op_iter(h)
                self.started.add(h)
            r.op_next(h, 1)
        else:
            r.op_steps(h)
        if self.parse and r.samples[h] and rnd.random() < 0.7:
            convert(r, rnd, h)

    def finish(self):
        while self.left():
            self.one()


def convert(r, rnd, h):
    """Some conversion of a sample of stream h."""
    i = rnd.randrange(1, len(r.samples[h]) + 1)
    _, _, ts, cg = r.samples[h][i - 1]
    if r.ver(h) == "1.26" and rnd.random() < 0.5:
        r.op_rows(h, i, rnd.choice(["CPU", "cpu", "DSK", "NETL", "MEM", "PRC", "PRM"]))
        return
    kinds = [("rec", 0), ("hdr", 0)] + [("ts", x + 1) for x in range(len(ts))] + [("cg", x + 1) for x in range(len(cg))]
    p, x = rnd.choice(kinds)
    r.op_dict(h, i, p, x, json_too=False)


def inside(r, seed, counts):
    """While stream 1 reads, the other streams are read one call at a time."""
    rnd = rng("inside", seed)
    crowd = Crowd(r, rnd, counts, False)
    # An iterator's call is logged as it begins, so those of the others come after it.
    r.op_iter(1, hdr=True)
    r.raw[1].hook = crowd.turn
    while r.op_next(1, 1):
        pass
    r.raw[1].hook = None
    crowd.other.end()
    crowd.finish()
    look_again(r)


def preempted(r, seed, counts):
    """The other streams are read, and their samples converted, at arbitrary instructions of what stream 1 does."""
    rnd = rng("preempted", seed)
    crowd = Crowd(r, rnd, counts, True)
    often = rnd.choice([0.002, 0.01, 0.05])

    def hook():
        if rnd.random() < often:
            crowd.turn()

    steps = rnd.random() < 0.4
    with Preempt(hook):
        if steps or rnd.random() < 0.5:
            r.op_header(1)
            if not steps:
                r.op_iter(1)
        else:
            r.op_iter(1, hdr=True)
        for _ in range(counts[0]):
            if not (r.op_steps(1) if steps else r.op_next(1, 1)):
                break
            convert(r, rnd, 1)
        if not steps:
            r.op_next(1, 1)
    crowd.other.end()
    crowd.finish()
    look_again(r)


def look_again(r):
    for h in r.samples:
        for i in range(1, len(r.samples[h]) + 1):
            r.op_held(h, i)


def make_held(ver, seed, tier):
    r = rng("C11held", ver, seed)
    logs = some_logs(r, [ver, r.choice(gen.versions())], 4)
    traces = []
    # Equal tasks in a sample.
    size = layout.load().size(logs[0].samples[0].f["tstat"])
    for s in logs[0].samples:
        for x in range(1, s.tasks):
            if r.random() < 0.6:
                s.ts.poke(x * size, s.ts.bytes(size * s.tasks)[(x - 1) * size : x * size])
    logs[0].build()

    def objects(lg):
        res = []
        for i, s in enumerate(lg.samples, 1):
            res += [(i, "rec", 0), (i, "ss", 0)] + [(i, "ts", x + 1) for x in range(s.tasks)] + [(i, "cg", x + 1) for x in range(len(s.cg or ()))]
        return res

    todo = objects(logs[0])
    for src in ("mem", "file"):
        strs = [stream(1, src=src), stream(2), stream(1)]
        for n, (i, p, x) in enumerate(todo):
            # Overwritten while the iteration goes on.
            ops = [["header", 1], ["header", 2], ["header", 3], ["iter", 1], ["iter", 2], ["next", 2]]
            for j in range(1, 5):
                ops.append(["next", 1] if n % 3 else ["steps", 1])
                if j == i:
                    ops += [["mutate", 1, i, p, x], ["others"]]
                if n % 3 == 0 and j == 4:
                    ops += [["all", 1]]
            ops += [["next", 2], ["others"], ["iter", 3], ["all", 3], ["others"]]
            traces.append(trace(f"{ver}-{src}-mutate{n}", ops, *strs))
    # Headers.
    attrs = list(layout.load().leaves(layout.load().formats[ver]["header"], lambda f: range(f["c"])))
    ops = [["header", 1], ["header", 3, {"attrs": attrs}], ["iter", 1], ["all", 1], ["mutate_header", 1], ["attrs", 3, 1, "hdr", 0, attrs],
           ["steps", 3], ["header", 2], ["header", 4, {"attrs": attrs}], ["iter", 3], ["all", 3], ["iter", 4], ["all", 4], ["others"]]
    traces.append(trace(f"{ver}-headers", ops, stream(1), stream(2), stream(1), stream(1)))
    # The same bytes again and again; dictionaries in between leave the structures alone, and they do not share anything.
    for i in (1, 2):
        s = logs[0].samples[i - 1]
        objs = [("rec", 0)] + ([("ts", 1)] if s.tasks else []) + ([("cg", 1), ("cg", 2)] if s.cg else [])
        ops = [["header", 1], ["iter", 1], ["next", 1], ["next", 1]]
        for p, x in objs:
            ops += [["dict", 1, i, p, x], ["mutate_dict", 1, i, p, x], ["others"]]
        ops += [["mutate_dict", 1, 1, "hdr"], ["all", 1], ["others"]]
        traces.append(trace(f"{ver}-dicts{i}", ops, stream(1)))
    for n in range(3):
        traces.append(trace(f"{ver}-again{n}", gen.full_run(hdr=n == 1), stream(1, src=["mem", "file", "gz"][n])))
    # Many samples held at once.
    logs.append(gen.small(ver, r, 25, tasks=2))
    ops = [["header", 1], ["iter", 1]] + [["next", 1]] * 25 + [["all", 1], ["others"]]
    traces.append(trace(f"{ver}-many", ops, stream(3)))
    return {"logs": logs, "traces": traces}
