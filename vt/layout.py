"""The layout tables, as TLC derives them from the specification."""

import json
import os
import shutil

from . import tla

_cache = None


class Layout:
    def __init__(self, data):
        self.structs = data["structs"]
        self.formats = data["formats"]
        self.versions = data["versions"]
        self.prims = data["prims"]
        self.fields = {s: {f["n"]: f for f in d["fields"]} for s, d in self.structs.items()}

    def size(self, s):
        return self.structs[s]["size"]

    def at(self, s, *path):
        """(offset, type, kind, count) of a path of names and 0-based indices."""
        off, i = 0, 0
        while True:
            f = self.fields[s][path[i]]
            off += f["off"]
            if f["k"] == "arr" and i + 1 < len(path):
                off += path[i + 1] * f["es"]
                if i + 2 == len(path):
                    return off, f["t"], "one", 1
                s, i = f["t"], i + 2
            elif i + 1 == len(path):
                return off, f["t"], f["k"], f["c"]
            else:
                s, i = f["t"], i + 1

    def width(self, t):
        return self.prims[t] if t in self.prims else self.size(t)

    def cgroups(self, ver):
        return "cstat" in self.formats[ver]

    def leaves(self, s, pick):
        """All paths to scalar or text fields; pick(field) gives the element indices of an array to visit."""
        for f in self.structs[s]["fields"]:
            if f["k"] == "arr":
                for i in pick(f):
                    if f["t"] in self.prims:
                        yield [f["n"], i]
                    else:
                        for p in self.leaves(f["t"], pick):
                            yield [f["n"], i] + p
            elif f["t"] in self.prims:
                yield [f["n"]]
            else:
                for p in self.leaves(f["t"], pick):
                    yield [f["n"]] + p


def load():
    global _cache
    if _cache is None:
        work = tla.scratch()
        try:
            out = os.path.join(work, "layout.json")
            tla.run("Export", "Export", env={"OUT": out}, timeout=120)
            with open(out) as f:
                _cache = Layout(json.load(f))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return _cache
