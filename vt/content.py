"""Contents (see AtopBytes.tla): a seeded pattern with pokes on top, described instead of written out."""

import functools

import numpy as np


@functools.lru_cache(maxsize=24)
def _pattern(seed, n):
    if seed <= 0:
        return bytes([-seed]) * n
    i = np.arange(n, dtype=np.int64)
    x = ((i % 251) * (2 * (seed % 61) + 3) + (i // 251) * 17 + (i // 4093) * 5 + seed) % 65521
    return (((x * 181) // 16) % 256).astype(np.uint8).tobytes()


class Content:
    def __init__(self, seed=0, pokes=()):
        self.seed = seed
        self.pokes = [(o, bytes(b)) for o, b in pokes]

    def copy(self):
        return Content(self.seed, self.pokes)

    def poke(self, off, data):
        if data:
            self.pokes.append((off, bytes(data)))
        return self

    def bytes(self, n):
        buf = bytearray(_pattern(self.seed, n))
        for o, b in self.pokes:
            if o < n:
                b = b[: n - o]
                buf[o : o + len(b)] = b
        return bytes(buf)

    def desc(self):
        over = {}
        for o, b in self.pokes:
            for i, x in enumerate(b):
                over[o + i] = x
        runs = []
        for i in sorted(over):
            if runs and i == runs[-1]["o"] + len(runs[-1]["b"]):
                runs[-1]["b"].append(over[i])
            else:
                runs.append({"o": i, "b": [over[i]]})
        return {"seed": self.seed, "pokes": runs}


class View:
    """Named access to a structure inside a content: view.set("cpu", "nrcpu", 3)."""

    def __init__(self, lay, struct, content, base=0):
        self.lay, self.struct, self.content, self.base = lay, struct, content, base

    def set(self, *args):
        *path, value = args
        off, t, k, c = self.lay.at(self.struct, *path)
        if isinstance(value, bytes):
            if k == "str":
                assert len(value) <= c, (path, len(value), c)
            data = value
        elif isinstance(value, float):
            import struct as _s
            data = _s.pack("<f", value)
        else:
            w = self.lay.width(t)
            data = (value % (1 << (8 * w))).to_bytes(w, "little")
        self.content.poke(self.base + off, data)
        return self

    def sub(self, *path):
        off, t, k, c = self.lay.at(self.struct, *path)
        return View(self.lay, t, self.content, self.base + off)
