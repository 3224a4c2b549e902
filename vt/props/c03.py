"""Declared structure lengths: each one off by one, by more, zero, huge, those of every other version, and in every
subset; for every supported version, newer ones and unknown ones; with and without the check, by get_header and by
the iterator."""

import itertools

from .. import gen, layout
from ..gen import rng
from ..logs import Log, header
from ..run import stream


def models(tier):
    return [("MCFormat", "MCFormat")]


def batches(tier, seed):
    words = [(v, None) for v in gen.versions()]
    newer = [(2, n) for n in ((13, 14, 99, 255) if tier == "quick" else range(13, 256))]
    older = [(1, 25), (1, 27), (1, 26 + 128), (2, 0), (2, 1), (2, 2), (0, 0), (0, 26), (3, 0), (3, 12), (4, 11), (127, 255), (26, 1), (12, 2)]
    words += [("2.12", w) for w in newer + older]
    return [(v, w, seed, tier) for v, w in words]


def sizes(ver):
    """Declared length fields and their right values."""
    lay = layout.load()
    f = lay.formats[ver]
    res = {"rawheadlen": lay.size(f["header"]), "rawreclen": lay.size(f["record"]), "sstatlen": lay.size(f["sstat"]),
           "pstatlen" if ver == "1.26" else "tstatlen": lay.size(f["tstat"])}
    if "cstat" in f:
        res["cstatlen"] = lay.size(f["cstat"])
    return res


def make(arg):
    ver, word, seed, tier = arg
    r = rng("C03", ver, word, seed)
    right = sizes(ver)
    cases = [{}]
    for name, n in right.items():
        top = 0xFFFF if name in ("rawheadlen", "rawreclen", "cstatlen") else 0xFFFFFFFF
        values = {n - 1, n + 1, n - 8, n + 8, 0, 1, n // 2, n * 2, top, top - 1, top // 2 + 1, n ^ 0x100, n ^ 0x8000, n ^ 0x80}
        values |= {(n + 0x10000) & top, n & 0xFF}
        values |= {q[name] for q in map(sizes, gen.versions()) if name in q}
        values |= {r.randrange(top) for _ in range(3 if tier == "quick" else 40)}
        cases += [{name: x} for x in sorted(values) if 0 <= x <= top and x != n]
    # Subsets, up and down; differences that cancel out.
    for k in range(2, len(right) + 1):
        for names in itertools.combinations(right, k):
            cases.append({n: right[n] + 8 for n in names})
            cases.append({n: right[n] - 8 for n in names})
            cases.append({n: right[n] + (8 if i % 2 else -8) for i, n in enumerate(names)})
            cases.append({n: 0 for n in names})
    # All lengths of another version; two exchanged.
    for other in gen.versions():
        q = sizes(other)
        cases.append({n: q[n] for n in right if n in q and q[n] != right[n]})
    for a, b in itertools.combinations(right, 2):
        if max(right[a], right[b]) < 65536:
            cases.append({a: right[b], b: right[a]})
    logs, traces = [], []
    for n, over in enumerate(cases):
        seed_ = 0 if n % 2 else r.randrange(1, 60000)
        if word is not None:
            over = dict(over, aversion=0x8000 | word[0] << 8 | word[1] if n % 5 else word[0] << 8 | word[1])
        logs.append(Log(ver, [], hdr=header(ver, seed=seed_, **over)))
        name = f"{ver}-{word}-{n}"
        traces.append({"id": name, "str": [stream(n + 1)], "ops": [["header", 1, {"chk": [None, True][n % 2]}]]})
        traces.append({"id": name + "-off", "str": [stream(n + 1, src="file" if n % 7 == 0 else "mem")], "ops": [["header", 1, {"chk": False}]]})
        if word is None or word[0] == 2 and word[1] > 12:
            traces.append({"id": name + "-iter", "str": [stream(n + 1)], "ops": [["iter", 1, {"hdr": True, "raise_": [None, False][n % 2]}], ["all", 1]]})
    return {"logs": logs, "traces": traces}
