"""Bytes of which nothing is known behind a header: noise of many kinds, logs with bytes flipped, left out, doubled and
moved, with lengths and counts of any size, with blocks holding anything, samples of other versions, logs behind logs;
described by what a reader has to find in them, read by iteration and call by call, with conversions of all that is
delivered. Changes of logs are drawn at random."""

import zlib

from .. import gen, layout
from ..found import Found
from ..gen import rng
from ..logs import Log, header
from ..run import stream

COUNTS = [0, 1, 2, 3, 100, 255, 256, 1000, 65535, 65536, (1 << 20) + 1, (1 << 24) - 1, (1 << 24), (1 << 31) - 1, 1 << 31, (1 << 32) - 1]


def models(tier):
    return [("MCChaos", "MCChaos")]


def batches(tier, seed):
    return [("own", v, seed, k, tier) for k in range(2 if tier == "quick" else 24) for v in gen.versions()]


def noise(r, n):
    k, m = r.randrange(6), min(n, 3000)
    if k == 0:
        base = r.randbytes(m)
    elif k == 1:
        base = bytes([r.choice([0, 1, 255, 0x78])])
    elif k == 2:
        base = b"ATOP - host  2020/01/01  00:00:00\n"
    elif k == 3:
        base = bytes(r.choices(b"\0\0\0\1\2\xff", k=m))
    elif k == 4:
        base = r.randbytes(r.choice([1, 2, 4, 8, 96]))
    else:
        base = zlib.compress(r.randbytes(r.randrange(100)))
    return (base * (n // max(1, len(base)) + 1))[:n]


class Maker:
    def __init__(self, ver, r):
        self.ver, self.r, self.lay = ver, r, layout.load()
        self.f = self.lay.formats[ver]
        self.cg = self.lay.cgroups(ver)
        self.names = ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if self.cg else [])
        self.counts = (["nlist"] if ver == "1.26" else ["ndeviat"]) + (["ncgroups", "ncgpids"] if self.cg else [])

    def log(self, n=3, ver=None):
        r = self.r
        return gen.log(ver or self.ver, r, n, rich=r.random() < 0.3, level=r.choice([0, 1, 9, 9]), tasks=r.choice([0, 1, 2, 4]),
                       cgroups=r.choice([None, [(8, 3), (16, 2)], [(0, 0)], [(8, 1)] * 5]))

    def samples(self, lg):
        return [bytearray(lg.data[b[0] : b[-1]]) for b in lg.bounds]

    def record(self, raw, **values):
        for n, v in values.items():
            off, t, _, _ = self.lay.at(self.f["record"], n)
            w = self.lay.width(t)
            raw[off : off + w] = (v % (1 << 8 * w)).to_bytes(w, "little")
        return raw

    def blocks(self, i=None):
        """A sample with blocks holding anything."""
        r, lay = self.r, self.lay
        size = {"scomplen": lay.size(self.f["sstat"]), "pcomplen": lay.size(self.f["tstat"])}
        tasks = r.choice([0, 1, 2, 3])
        ss = size["scomplen"] + r.choice([0, 0, 0, 1, -1, 7, 5000, -size["scomplen"], -100])
        ts = tasks * size["pcomplen"] + r.choice([0, 0, 0, 1, 3, -1, -size["pcomplen"], 500])
        raw = [noise(r, max(0, ss)), noise(r, max(0, ts))]
        values = {self.counts[0]: tasks if r.random() < 0.8 else r.choice(COUNTS)}
        if self.cg:
            cs, pids, n, csize = b"", 0, r.choice([0, 1, 2, 5]), lay.size(self.f["cstat"])
            for x in range(n):
                c = bytearray(noise(r, csize))
                ln = csize + r.choice([0, 8, 8, 16, 1, 3, 255] if r.random() < 0.88 else [-1, 0, csize - 1, -csize, -8, 1 << 20])
                np_ = r.choice([0, 1, 2, 7] if r.random() < 0.92 else [-1, 1 << 20, (1 << 31) - 1, 1000])
                for p, v in (("structlen", ln), ("nprocs", np_)):
                    off, _, _, _ = lay.at(self.f["cstat"], "gen", p)
                    c[off : off + 4] = (v % (1 << 32)).to_bytes(4, "little")
                cs += bytes(c) + noise(r, max(0, min(ln - csize, 300)))
                pids += np_ if 0 <= np_ < 5000 else 0
            raw += [cs + noise(r, r.choice([0, 0, 0, 1, 30])), noise(r, max(0, 4 * pids + r.choice([0, 0, 0, 1, 4, -1, -4])))]
            values["ncgroups"] = n if r.random() < 0.8 else r.choice(COUNTS + [n + 1, max(0, n - 1)])
            values["ncgpids"] = pids if r.random() < 0.8 else r.choice(COUNTS)
        zs = []
        for b in raw:
            z = zlib.compress(b, r.choice([0, 1, 6, 9]))
            k = r.random()
            if k < 0.1:
                z += r.choice([b"\0", noise(r, 20), z])                     # something behind it
            elif k < 0.14:
                c = zlib.compressobj(9, zlib.DEFLATED, r.choice([-15, 31]))  # another container
                z = c.compress(b) + c.flush()
            elif k < 0.17:
                z = b""
            elif k < 0.2:
                c = zlib.compressobj(9)
                z = c.compress(b) + c.flush(zlib.Z_FULL_FLUSH)              # no end
            elif k < 0.24:
                c = zlib.compressobj(9)
                z = c.compress(b[: len(b) // 2]) + c.flush(zlib.Z_FULL_FLUSH) + c.compress(b[len(b) // 2 :]) + c.flush()
            zs.append(z)
        rec = self.record(bytearray(noise(r, lay.size(self.f["record"]))), **values, **{n: len(z) for n, z in zip(self.names, zs)})
        return rec + b"".join(zs)

    def make(self):
        """(what was done, the bytes behind the header)"""
        r = self.r
        kind = r.choice(["noise", "behind", "flips", "lengths", "counts", "blocks", "blocks", "blocks", "moved", "other", "again", "mixed"])
        lg = self.log()
        smps = self.samples(lg)
        i = r.randrange(len(smps))
        if kind == "noise":
            smps = [noise(r, r.choice([1, 50, 95, 96, 97, 200, 5000]))]
        elif kind == "behind":
            smps.append(noise(r, r.choice([1, 50, 95, 96, 97, 200, 5000])))
        elif kind == "flips":
            rsize = self.lay.size(self.f["record"])
            for _ in range(r.choice([1, 1, 2, 5])):
                s = r.choice(smps)
                s[r.randrange(rsize if r.random() < 0.6 else len(s))] ^= 1 << r.randrange(8)
        elif kind == "lengths":
            b = lg.bounds[i]
            for n in r.sample(range(len(self.names)), r.choice([1, 1, 2, len(self.names)])):
                mine = b[n + 2] - b[n + 1]
                self.record(smps[i], **{self.names[n]: r.choice(COUNTS + [mine - 1, mine + 1, mine + 96, b[-1] - b[n + 1], len(lg.data)])})
        elif kind == "counts":
            for n in r.sample(self.counts, r.choice([1, 1, len(self.counts)])):
                self.record(smps[i], **{n: r.choice(COUNTS)})
        elif kind == "blocks":
            smps[i] = self.blocks()
            if r.random() < 0.4:
                smps.append(self.blocks())
        elif kind == "moved":
            data = bytearray().join(smps)
            for _ in range(r.choice([1, 1, 2])):
                a, b = sorted((r.randrange(len(data)), r.randrange(len(data))))
                b = r.choice([b, a + 1, a + 8, a + 96])
                part = data[a:b]
                k = r.randrange(3)
                if k == 0:
                    del data[a:b]
                elif k == 1:
                    data[a:a] = part
                else:
                    del data[a:b]
                    at = r.randrange(len(data) + 1)
                    data[at:at] = part
            smps = [data]
        elif kind == "other":
            v = r.choice([v for v in gen.versions() if v != self.ver])
            smps.insert(r.randrange(4), bytearray(self.log(r.choice([1, 2]), v).data[480:]))
        elif kind == "again":
            v = r.choice(gen.versions())
            smps.insert(r.choice([1, 2, 3]), bytearray(self.log(1, v if r.random() < 0.5 else self.ver).data))
        elif kind == "mixed":
            r.shuffle(smps)
            smps[i] = smps[i][: r.randrange(len(smps[i]))]
            smps[i - 1] += noise(r, r.choice([0, 1, 96, 300]))
        return kind, bytes(b"".join(smps))


def read(runner, lg, r, raise_, steps):
    """Iterate to the end, or read call by call as long as there is a record."""
    own = r.random() < 0.5
    if own or steps:
        runner.op_header(1)
    mark = len(runner.ev)
    if steps:
        n = 0
        for b, kind in zip(lg.bounds, lg.kinds):
            if kind in ("part", "mark") or not runner.op_steps(1):
                break
            n += 1
        else:
            runner.op_iter(1)
            runner.op_all(1)
    else:
        runner.op_iter(1, None, raise_, not own)
        runner.op_all(1)
    for e in runner.ev[mark:]:
        if e["a"] in ("next", "sstat", "tstat", "cstat"):
            e["strict"] = True
    got = range(1, len(runner.samples[1]) + 1)
    for i in got if lg.ver == "1.26" else r.sample(got, min(1, len(got))):
        runner.op_convert(1, i)
    runner.op_others()


def make(arg):
    _, ver, seed, k, tier = arg
    r = rng("C22", ver, seed, k)
    m = Maker(ver, r)
    logs, traces = [], []
    for n in range(70):
        kind, data = m.make()
        hdr = header(ver, r.choice([0, 0, 7, 99])) if ver != "2.12" or r.random() < 0.7 else header(ver, aversion=0x8000 | 0x200 | r.choice([13, 14, 99, 255]))
        lg = Found(ver, hdr, data)
        logs.append(lg)
        raise_ = r.choice([None, True, False])
        small = max([0] + [o for b in lg.bounds for o in b]) < 1 << 24
        for steps in (False, True) if r.random() < 0.4 else (False,):
            traces.append({"id": f"{kind}-{n}-{steps}", "str": [stream(len(logs), len(lg.data), src=r.choice(["mem", "mem", "file", "gz", "pieces"]) if small else "mem")],
                           "script": read, "args": (lg, r, raise_, steps)})
    return {"logs": logs, "traces": traces}
