"""Describing bytes of any kind: what a reader of a version finds in them, as a log."""

import zlib

from . import layout
from .logs import Log, _span, digest

NOTHING = {"seed": 0, "pokes": []}
MOST = 1 << 23       # of a decompressed block


def inflate(z):
    """(what z decompresses to or None, whether it is too much to look at)"""
    d = zlib.decompressobj()
    try:
        raw = d.decompress(z, MOST)
    except zlib.error:
        return None, False
    if d.unconsumed_tail and not d.eof:
        return None, True
    return (raw, False) if d.eof else (None, False)


class Found(Log):
    """Bytes behind a header, described as far as they can be read.  (Contents of system and task blocks are only
    described by their digests.)  The bytes end where it would no longer be clear what is to be found in them."""

    def __init__(self, ver, hdr, data):
        super().__init__(ver, [], hdr)
        lay = layout.load()
        f = self.lay_f = lay.formats[ver]
        num = lambda s, b, *path: int.from_bytes(b[slice(*_span(lay, s, *path))], "little")
        signed = lambda s, b, *path: int.from_bytes(b[slice(*_span(lay, s, *path))], "little", signed=True)
        names = ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if lay.cgroups(ver) else [])
        rsize, ssize, tsize = (lay.size(f[p]) for p in ("record", "sstat", "tstat"))
        csize = lay.size(f["cstat"]) if lay.cgroups(ver) else 0
        at, descs, self.kinds = 0, [], []
        self._bounds = []
        while at < len(data):
            rec = data[at : at + rsize]
            offs, kind = [at, at + len(rec)], "sample"
            whole = len(rec) == rsize
            lens = [num(f["record"], rec, n) for n in names] if whole else [1] * len(names)
            if whole and lens[0] == 0:
                kind = "mark"
            raw, bad = [], []
            o = at + rsize
            for n in lens:
                z = data[o : o + n]
                if kind == "mark" or not whole:
                    raw.append(b"")
                    bad.append(False)
                elif o + n > len(data):
                    # Cut: nothing complete is to be in it.
                    while inflate(z)[0] is not None:
                        data = data[: o + len(z) // 2]
                        z = data[o:]
                    raw.append(b"")
                    bad.append(True)
                    kind = "cut"
                else:
                    got, much = inflate(z)
                    if much:
                        # Too much of it: cut before.
                        data = data[: o + n - 1]
                        while inflate(data[o:])[0] is not None or inflate(data[o:])[1]:
                            data = data[: o + (len(data) - o) // 2]
                        got, kind = None, "cut"
                    raw.append(got or b"")
                    bad.append(got is None and (n > 0 or len(raw) <= 2))
                    if bad[-1] and kind == "sample":
                        kind = "bad"
                o += n
                offs.append(o)
            tasks = num(f["record"], rec, "nlist" if ver == "1.26" else "ndeviat") if whole else 0
            ident = {"rec": digest(rec), "ss": digest(raw[0][:ssize]),
                     "ts": [digest(raw[1][i * tsize : (i + 1) * tsize]) for i in range(min(tasks, len(raw[1]) // tsize))], "cg": []}
            cs = {"seed": 0, "pokes": []}
            if csize and whole and kind != "mark":
                e = p = n = 0
                count = signed(f["record"], rec, "ncgroups")
                while n < count and e + csize <= len(raw[2]):
                    c = raw[2][e : e + csize]
                    (a1, a2), (b1, b2) = _span(lay, f["cstat"], "gen", "structlen"), _span(lay, f["cstat"], "gen", "nprocs")
                    cs["pokes"] += [{"o": e + x, "b": list(c[x:y])} for x, y in ((a1, a2), (b1, b2))]
                    ln, np_ = signed(f["cstat"], c, "gen", "structlen"), signed(f["cstat"], c, "gen", "nprocs")
                    if ln < csize or np_ < 0:
                        break
                    if 4 * (p + np_) <= len(raw[3]):
                        ident["cg"].append(digest(c + raw[3][4 * p : 4 * (p + np_)]))
                    e, p, n = e + ln, p + np_, n + 1
                cs["pokes"].sort(key=lambda x: x["o"])
            descs.append({"rec": {"seed": 0, "pokes": [{"o": 0, "b": list(rec)}]}, "ss": NOTHING, "ts": NOTHING, "cs": cs, "pl": NOTHING,
                          "n": [len(x) for x in raw] + [0] * (4 - len(raw)), "bad": bad, "id": ident})
            self._bounds.append([480 + x for x in offs])
            self.kinds.append(kind if whole else "part")
            at = o
            if kind != "sample" or not whole:
                break
        self._built = self.hdr.bytes(480) + data, {"ver": ver, "hdr": self.hdr.desc(), "rep": 0, "s": descs}
