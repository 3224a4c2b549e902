"""Logged forms of values (see AtopLayout.tla and AtopDict.tla)."""

import ctypes
import struct


def num(v):
    m = abs(v)
    return {"x": "i", "sg": 1 if v < 0 else 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "little"))}


def value(v):
    if isinstance(v, bool):
        return {"x": "b"}
    if isinstance(v, int):
        return num(v)
    if isinstance(v, bytes):
        return {"x": "y", "b": list(v)}
    if isinstance(v, str):
        return {"x": "s", "b": list(v.encode("utf-8", "surrogatepass"))}
    if isinstance(v, float):
        try:
            b = struct.pack("<f", v)
            if struct.unpack("<f", b)[0] == v or v != v:
                return {"x": "f", "b": list(b)}
        except OverflowError:
            pass
        return {"x": "F"}
    if isinstance(v, dict):
        if any(not isinstance(k, str) for k in v):
            return {"x": "?", "t": "keys"}
        return {"x": "d", "d": {k: value(w) for k, w in v.items()}}
    if isinstance(v, (list, tuple)):
        return {"x": "l", "v": [value(w) for w in v]}
    return {"x": "?", "t": type(v).__name__}


def row(r):
    """A row of parseable output; its tag stays readable."""
    e = value(r)
    if e["x"] == "d" and isinstance(r.get("parseable"), str):
        e["d"]["parseable"] = {"x": "t", "v": r["parseable"]}
    return e


def path_value(obj, path):
    """The attribute value that a path of names and indices denotes."""
    try:
        for p in path:
            obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    except (AttributeError, IndexError, TypeError) as e:
        return {"x": "?", "t": type(e).__name__}
    if isinstance(obj, ctypes.Array):
        return {"x": "?", "t": "array"}
    return value(obj)
