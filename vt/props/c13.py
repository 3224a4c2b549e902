"""Dictionary values: smallest and largest numbers of every type in every field, texts with and without NUL, with
invalid UTF-8 of all kinds, floats of all magnitudes; all versions, before and after JSON."""

import struct

from .. import gen, layout
from ..gen import rng, sample, trace
from ..logs import Log, header
from ..run import stream
from .c12 import limiters, set_limiters


def models(tier):
    return [("MCText", "MCText")]


def batches(tier, seed):
    return [(v, seed, tier, k) for v in gen.versions() for k in range(4 if tier == "quick" else 24)]


TEXTS = [b"", b"a", b"name", b"a\0b", b"\0abc", "n\u00e4me".encode(), "\u65e5\u672c\u8a9e".encode(), "\U0001f600x".encode(), b"\xff", b"\x80\x80a",
         b"a\xc3", b"\xc3(", b"\xe2\x82", b"\xe2(\xa1", b"\xf0\x9f\x98", b"\xed\xa0\x80x", b"\xc0\xafy", b"\xf4\x90\x80\x80z", b"\xf8\x88\x80\x80\x80w",
         b"\xef\xbb\xbfbom", b"\"\\/\b\n\r\t", b"\x01\x1f\x7f", "\u2028\u2029\ufeff".encode(), b"\xc3\xa9\xff\xc3\xa9", b"\xe1\x80\xe2\xf0\x91\x92\xf1\xbf"]
# Texts that somebody could want to put right, tidy up or understand.
TEMPTING = [b"a\r\nb", b"a\rb\n", b" a ", b"\ta", b"a\n", b"\r", "e\u0301a\u0308".encode(), "\u212b\ufb01\u2460".encode(), "\u0130\u1e9e\u01c5".encode(), b"a&amp;b<", b"%41%2f+",
            b"\\n\\u0041\\", b"(sd-pam)", b"[kworker]", b"\x1b[31mred\x1b[0m", "\u200b\u00a0x\u00a0".encode(), "\u202eabc".encode(), b"0012", b"None", b"null", b"true", b"NaN", b"1e5", b"-",
            b"'a'", b"\"a\"", b"b'x'", b"a  b", b"a\tb", b"{x}", b"%s", b"$HOME", b"~", b"/usr//bin/../x", b"C:\\x", b"UPPER lower", b"a,b;c", "\ue000\ufffd\ufffe".encode(), b"a\x0bb\x0cc\x1cd\x85", "\u0085\u2028".encode()]


def text(r, n):
    """n bytes for a text field of that width."""
    t = r.choice(TEXTS + TEMPTING if r.random() < 0.7 else [bytes(r.randrange(1, 256) for _ in range(n)), bytes(r.randrange(32, 127) for _ in range(n)),
                          bytes(r.randrange(128, 256) for _ in range(n)), "\u00e9".encode() * n, b"x" + "\u20ac".encode() * n, b"x" * n])
    how = r.randrange(3)
    t = t[:n]
    if how == 0 and len(t) < n:
        return t + b"\0" * (n - len(t))
    if how == 1 and len(t) < n:
        return (t + b"\0" + bytes(r.randrange(256) for _ in range(n)))[:n]
    return (t * n + b"y" * n)[:n]


def number(r, t, w):
    bits = 8 * w
    return r.choice([0, 1, -1, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << bits) - 1, (1 << bits) - 2, 1 << (bits // 2),
                     (1 << bits - 1) + 1, 255, 256, (1 << 53) + 1 if w == 8 else 9, r.randrange(1 << bits)]) % (1 << bits)


FLOATS = [0.0, -0.0, 1.0, 0.1, 123.45, 3.4028234663852886e38, -3.4028234663852886e38, 1.401298464324817e-45, 1e-40, 16777217.0, 0.005, 1e10, -0.07]


def make(arg):
    ver, seed, tier, k = arg
    r = rng("C13", ver, seed, k)
    lay = layout.load()
    logs, traces = [], []
    lims = limiters(lay.formats[ver]["sstat"])

    def scatter(view, s, most, keep=()):
        """Poke values into fields all over a structure."""
        leaves = [p for p in lay.leaves(s, lambda f: [0, 1, 2] if f["c"] > 2 else range(f["c"])) if p[-1] not in keep]
        for p in leaves if len(leaves) <= most else r.sample(leaves, most):
            off, t, kind, c = lay.at(s, *p)
            w = lay.width(t)
            if kind == "str":
                v = text(r, c)
            elif t == "chr":
                v = bytes([r.choice([0, 65, 127, 128, 195, 255, r.randrange(256)])])
            elif t == "f32":
                v = struct.pack("<f", r.choice(FLOATS + [r.uniform(-1e6, 1e6)]))
            else:
                v = number(r, t, w).to_bytes(w, "little")
            view.content.poke(view.base + off, v)

    for n in range(3 if tier == "quick" else 8):
        s = sample(ver, r, tasks=4, cgroups=[(8, 3), (0, 2)], record={}, rich=n % 2 == 0)
        s.rec.seed = s.rec.seed if n % 2 else -r.choice([0, 255, 128, 127, 1])
        scatter(s.view("rec"), s.f["record"], 30, {"scomplen", "pcomplen", "ccomplen", "icomplen", "ndeviat", "nlist", "ncgroups", "ncgpids"})
        for f in ("scomplen", "pcomplen"):
            s.counts.pop(f, None)
        scatter(s.view("ss"), s.f["sstat"], 400)
        for x in range(4):
            scatter(s.view("ts", x), s.f["tstat"], 80)
        set_limiters(s, r, 3000, lims, lambda *a: r.choice([1, 2, 3]))
        if "cstat" in s.f:
            for x in range(2):
                scatter(s.view("cg", x), s.f["cstat"], 40, {"structlen", "nprocs"})
                for p in range(5):
                    s.pl.poke(4 * p, number(r, "i32", 4).to_bytes(4, "little"))
        hdr = header(ver, seed=r.randrange(1, 60000) if n % 2 else 0)
        from ..content import View
        scatter(View(lay, s.f["header"], hdr), s.f["header"], 30,
                {"magic", "aversion", "rawheadlen", "rawreclen", "sstatlen", "tstatlen", "pstatlen", "cstatlen"})
        logs.append(Log(ver, [s], hdr=hdr))
        ops = [["header", 1], ["iter", 1], ["next", 1], ["dict", 1, 1, "hdr"], ["dict", 1, 1, "rec"], ["dict", 1, 1, "ss"]]
        ops += [["dict", 1, 1, "ts", x] for x in (1, 2, 3, 4)]
        ops += [["dict", 1, 1, "cg", x] for x in (1, 2) if "cstat" in s.f]
        traces.append(trace(f"{ver}-{k}-{n}", ops, stream(len(logs))))
    # Texts by the dozen.
    if k % 2:
        return {"logs": logs, "traces": traces}
    fields = [p for p in lay.leaves(lay.formats[ver]["tstat"], lambda f: [0]) if lay.at(lay.formats[ver]["tstat"], *p)[2] == "str"]
    s = sample(ver, r, tasks=60, cgroups=None, record={}, rich=False)
    every = r.sample(TEMPTING + TEXTS, 60)
    for x in range(60):
        v = s.view("ts", x)
        for p in fields:
            c = lay.at(s.f["tstat"], *p)[3]
            v.set(*p, text(r, c) if p[-1] != "cmdline" else (every[x] + b"\0" * c)[:c])
    logs.append(Log(ver, [s]))
    ops = [["header", 1], ["iter", 1], ["next", 1]] + [["dict", 1, 1, "ts", x] for x in range(1, 61)]
    traces.append(trace(f"{ver}-{k}-texts", ops, stream(len(logs))))
    return {"logs": logs, "traces": traces}
