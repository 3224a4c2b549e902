"""Building raw logs from descriptions, together with what the specification is told about them."""

import gzip
import hashlib
import struct
import zlib

from . import layout
from .content import Content, View

MAGIC = 0xFEEDBEEF


def digest(data):
    return hashlib.blake2b(data, digest_size=8).hexdigest()


class Sample:
    """One sample.  Contents are filled in by the caller; lengths and counts are poked in by build()."""

    def __init__(self, ver, seed=0, tasks=1, cgroups=None, level=6, rec=None):
        lay = layout.load()
        self.ver, self.level = ver, level
        self.f = f = lay.formats[ver]
        self.rec = rec or Content(seed)
        self.ss, self.ts, self.cs, self.pl = Content(seed), Content(seed), Content(seed), Content(seed)
        self.tasks = tasks
        # cgroups: list of (name length, number of processes); None: the section was not written.
        self.cg = cgroups if lay.cgroups(ver) else None
        self.lens = [lay.size(f["sstat"]), tasks * lay.size(f["tstat"]), 0, 0]
        self.damage = {}      # block -> function on its compressed bytes
        self.omit = set()     # cgroup blocks (2, 3) that are not written although there is a cgroup section
        self.endmark = False
        self.counts = {}      # record fields to override after the counts have been set
        self.claims = {}      # lengths that the record claims its blocks to have
        if self.cg is not None:
            size = lay.size(f["cstat"])
            o = 0
            for name, np_ in self.cg:
                View(lay, f["cstat"], self.cs, o).set("gen", "structlen", size + name).set("gen", "nprocs", np_)
                o += size + name
            self.lens[2] = o
            self.lens[3] = 4 * sum(n for _, n in self.cg)

    def view(self, part, x=0):
        lay = layout.load()
        if part == "rec":
            return View(lay, self.f["record"], self.rec)
        if part == "ss":
            return View(lay, self.f["sstat"], self.ss)
        if part == "ts":
            return View(lay, self.f["tstat"], self.ts, x * lay.size(self.f["tstat"]))
        if part == "cg":
            size = lay.size(self.f["cstat"])
            return View(lay, self.f["cstat"], self.cs, sum(size + n for n, _ in self.cg[:x]))
        raise KeyError(part)

    def build(self):
        """(bytes of the sample, description for the specification)."""
        lay = layout.load()
        f = self.f
        names = ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if lay.cgroups(self.ver) else [])
        for b in self.omit:
            self.lens[b] = 0
        contents = [self.ss, self.ts, self.cs, self.pl]
        raw = [c.bytes(n) for c, n in zip(contents, self.lens)]
        blocks, bad = [], []
        for b in range(len(names)):
            if b >= 2 and (self.cg is None or b in self.omit):
                blocks.append(b"")
                bad.append(False)
                continue
            z = zlib.compress(raw[b], self.level)
            if b in self.damage:
                z = self.damage[b](z)
                # Whether it still decompresses is for zlib itself to say.
                try:
                    got = zlib.decompress(z)
                    bad.append(False)
                    if got != raw[b]:
                        raise AssertionError("damage changed the content undetectably")
                except zlib.error:
                    bad.append(True)
            else:
                bad.append(False)
            blocks.append(z)
        rec = self.view("rec")
        if self.ver == "1.26":
            rec.set("nlist", self.tasks)
        else:
            rec.set("ndeviat", self.tasks)
        if lay.cgroups(self.ver):
            rec.set("ncgroups", len(self.cg or ()))
            if self.cg is not None:
                rec.set("ncgpids", self.lens[3] // 4)
        for name, value in self.counts.items():
            rec.set(name, value)
        if self.endmark:
            rec.set("scomplen", 0)
            for n in names[1:]:
                rec.set(n, 0)
            blocks = [b"" for _ in blocks]
        else:
            for n, z in zip(names, blocks):
                rec.set(n, self.claims.get(n, len(z)))
        recbytes = self.rec.bytes(lay.size(f["record"]))
        tsize = lay.size(f["tstat"])
        count = int.from_bytes(recbytes[slice(*_span(lay, f["record"], "nlist" if self.ver == "1.26" else "ndeviat"))], "little")
        ident = {
            "rec": digest(recbytes),
            "ss": digest(raw[0][: lay.size(f["sstat"])]),
            "ts": [digest(raw[1][i * tsize : (i + 1) * tsize]) for i in range(min(count, len(raw[1]) // tsize))],
            "cg": [],
        }
        if self.cg is not None:
            size, o, p = lay.size(f["cstat"]), 0, 0
            for name, np_ in self.cg[: int.from_bytes(recbytes[slice(*_span(lay, f["record"], "ncgroups"))], "little")]:
                ident["cg"].append(digest(raw[2][o : o + size] + raw[3][p : p + 4 * np_]))
                o += size + name
                p += 4 * np_
        desc = {
            "rec": self.rec.desc(), "ss": self.ss.desc(), "ts": self.ts.desc(), "cs": self.cs.desc(), "pl": self.pl.desc(),
            "n": self.lens, "bad": bad, "id": ident,
        }
        return recbytes + b"".join(blocks), desc, [len(recbytes)] + [len(b) for b in blocks]


def _span(lay, s, *path):
    off, t, _, _ = lay.at(s, *path)
    return off, off + lay.width(t)


def header(ver, seed=0, **over):
    """Content of a valid header of a version, with some fields replaced."""
    lay = layout.load()
    f = lay.formats[ver]
    c = Content(seed)
    v = View(lay, f["header"], c)
    major, minor = (int(x) for x in ver.split("."))
    v.set("magic", MAGIC).set("aversion", 0x8000 | major << 8 | minor)
    v.set("rawheadlen", lay.size(f["header"])).set("rawreclen", lay.size(f["record"]))
    v.set("sstatlen", lay.size(f["sstat"]))
    v.set("pstatlen" if ver == "1.26" else "tstatlen", lay.size(f["tstat"]))
    if "cstat" in f:
        v.set("cstatlen", lay.size(f["cstat"]))
    for name, value in over.items():
        v.set(name, value)
    return c


class Log:
    """Header and samples; with rep > 0, that many repetitions of the samples."""

    def __init__(self, ver, samples=(), hdr=None, rep=0):
        self.ver, self.samples, self.hdr, self.rep = ver, list(samples), hdr or header(ver), rep
        self._built = None

    def build(self):
        if self._built is None:
            lay = layout.load()
            parts = [self.hdr.bytes(lay.size("Header_1_26"))]
            descs = []
            self._bounds = []
            at = len(parts[0])
            for s in self.samples:
                data, desc, lens = s.build()
                offs = [at]
                for n in lens:
                    offs.append(offs[-1] + n)
                self._bounds.append(offs)
                at = offs[-1]
                parts.append(data)
                descs.append(desc)
            if self.rep:
                parts = parts[:1] + parts[1:] * self.rep
            self._built = b"".join(parts), {"ver": self.ver, "hdr": self.hdr.desc(), "rep": self.rep, "s": descs}
        return self._built

    @property
    def bounds(self):
        """Per sample: the offsets of record and blocks, and its end."""
        self.build()
        return self._bounds

    @property
    def data(self):
        return self.build()[0]

    @property
    def desc(self):
        return self.build()[1]


def gz(data, cut=None, level=6):
    """gzip bytes of data; with cut: a gzip file whose rest is missing behind exactly that many bytes of data."""
    if cut is None:
        return gzip.compress(data, level, mtime=0)
    z = zlib.compressobj(level, zlib.DEFLATED, 31)
    return z.compress(data[:cut]) + z.flush(zlib.Z_SYNC_FLUSH)
