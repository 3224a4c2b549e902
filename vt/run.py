"""Running the code under test and recording what it does."""

import builtins
import contextlib
import ctypes
import gc
import gzip
import io
import json
import multiprocessing
import os
import queue
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import tracemalloc
import weakref
import zlib

from . import process, enc, layout, world
from .logs import Log, digest, gz

REPO = os.environ.get("VT_REPO", "/repo")
LIMIT = 86400


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def load_code():
    """The package from /repo's working tree."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import atoparser
    import atoparser.reader
    from atoparser.parsers import atop_1_26
    assert os.path.realpath(atoparser.__file__).startswith(os.path.realpath(REPO) + os.sep), atoparser.__file__
    return atoparser, atop_1_26


def errname(e):
    if isinstance(e, Hang):
        return "hang"
    if isinstance(e, zlib.error):
        return "zlib.error"
    return type(e).__name__


class Pieces(io.RawIOBase):
    """A source that cannot seek and delivers what it was given in arbitrary pieces."""

    def __init__(self, data, sizes):
        self.data, self.sizes, self.at, self.turn = data, sizes, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.sizes[self.turn % len(self.sizes)], len(self.data) - self.at)
        self.turn += 1
        b[:n] = self.data[self.at : self.at + n]
        self.at += n
        return n


class Arriving(io.RawIOBase):
    """A source that cannot seek and whose writer has so far delivered the bytes up to a moving limit."""

    def __init__(self, data):
        self.data, self.at, self.limit = data, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.limit - self.at)
        if n == 0 and self.limit < len(self.data):
            raise Starved()      # here a real reader would block
        b[:n] = self.data[self.at : self.at + n]
        self.at += n
        return n


class Starved(BaseException):
    """More bytes were asked for than the writer has delivered."""


class Switching(io.BytesIO):
    """A source during whose reads other readers run (hook is called before and after every read)."""

    hook = None

    def around(self, fn, *a):
        if self.hook:
            self.hook()
        res = fn(*a)
        if self.hook:
            self.hook()
        return res

    def read(self, *a):
        return self.around(super().read, *a)

    def readinto(self, *a):
        return self.around(super().readinto, *a)


class Grows(io.BytesIO):
    """A source to which a writer may append during reads (hook is called before each)."""

    hook = None

    def read(self, *a):
        if self.hook:
            self.hook()
        return super().read(*a)

    def readinto(self, *a):
        if self.hook:
            self.hook()
        return super().readinto(*a)

    def append(self, data):
        at = self.tell()
        self.seek(0, 2)
        self.write(data)
        self.seek(at)


class GrowsFile(io.BufferedReader):
    """The same over a file."""

    hook = None

    def read(self, *a):
        if self.hook:
            self.hook()
        return super().read(*a)

    def readinto(self, *a):
        if self.hook:
            self.hook()
        return super().readinto(*a)


class Failing:
    """What a source that fails is armed with: the byte from which on it does, the error, and whether it does so only once."""

    bad, error, once, raised = None, None, False, None

    def arm(self, bad, error, once):
        self.bad, self.error, self.once, self.raised = bad, error, once, None

    def check(self, to):
        if self.bad is not None and to > self.bad:
            self.fail()

    def fail(self):
        x, self.raised = self.error, self.error
        if self.once:
            self.bad = None
        raise x


class Fails(io.BytesIO):
    """A source in memory that fails where it is told to."""

    def __init__(self, data):
        super().__init__(data)
        self.size, self.faults = len(data), Failing()

    def upto(self, n):
        n = self.size + 1 - self.tell() if n is None or n < 0 else n
        if n:
            self.faults.check(self.tell() + n)

    def read(self, n=-1):
        self.upto(n)
        return super().read(n)

    read1 = read

    def readinto(self, b):
        self.upto(memoryview(b).nbytes)
        return super().readinto(b)

    readinto1 = readinto


class FailsRaw(io.FileIO):
    """A file that can be read up to a byte, and no further."""

    def __init__(self, path):
        super().__init__(path)
        self.faults = Failing()

    def readinto(self, b):
        bad = self.faults.bad
        b = memoryview(b).cast("B")
        if bad is None or not len(b):
            return super().readinto(b)
        room = bad - self.tell()
        if room <= 0:
            self.faults.fail()
        return super().readinto(b[:room])

    def readall(self):
        res = b""
        while part := super().read(65536) if self.faults.bad is None else self.read(65536):
            res += part
        return res

    def read(self, n=-1):
        if self.faults.bad is None:
            return super().read(n)
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        return bytes(buf[: self.readinto(buf)])


@contextlib.contextmanager
def opening(failing):
    """Opening one of those files gives a source that fails as told."""
    if not failing:
        yield
        return
    real = builtins.open

    def opened(file, mode="r", *args, **kw):
        try:
            name = os.path.abspath(os.fsdecode(os.fspath(file)))
        except TypeError:
            name = None
        if name not in failing or mode not in ("rb", "br"):
            return real(file, mode, *args, **kw)
        raw = FailsRaw(name)
        raw.faults = failing[name]
        return io.BufferedReader(raw)

    builtins.open = io.open = opened
    try:
        yield
    finally:
        builtins.open = io.open = real


class Strike:
    """with Strike(turn, error): the error is raised at the turn-th call that the package under test makes or gets."""

    # Not in the middle of giving something back or of putting something right.
    NEVER = {"__exit__", "__enter__", "__aexit__", "__del__", "acquire", "release", "close", "clear", "set", "discard", "remove", "pop", "popleft", "append"}

    def __init__(self, turn, error):
        self.turn, self.error, self.raised = turn, error, None
        self.root = os.path.join(os.path.realpath(REPO), "atoparser") + os.sep

    def __enter__(self):
        sys.setprofile(self.at)
        return self

    def __exit__(self, *_):
        sys.setprofile(None)

    def at(self, frame, event, arg):
        if event not in ("call", "c_call") or not os.path.realpath(frame.f_code.co_filename).startswith(self.root):
            return
        if (arg.__name__ if event == "c_call" else frame.f_code.co_name) in self.NEVER:
            return
        if event == "call" and frame.f_lasti > 0 and frame.f_code.co_flags & 0x20 and frame.f_back is not None and frame.f_back.f_code.co_filename == __file__:
            return      # a generator that goes on: its caller's doing
        if self.turn == 0:
            self.raised = self.error
            sys.setprofile(None)
            raise self.error
        self.turn -= 1


ERRORS = {"io": lambda: OSError(5, "Input/output error"), "time": lambda: TimeoutError(110, "timed out"), "again": lambda: InterruptedError(4, "interrupted"),
          "own": lambda: Trouble("of its own"), "runtime": lambda: RuntimeError("source"), "memory": lambda: MemoryError(),
          "key": lambda: KeyboardInterrupt(), "exit": lambda: SystemExit(7), "stale": lambda: OSError(116, "Stale file handle")}


class Trouble(Exception):
    """A source's own kind of error."""


class Other:
    """Another thread, which runs one function at a time while the caller waits for it (but not for ever: a
    reader may well keep others out for a while)."""

    def __init__(self):
        self.todo, self.done = queue.SimpleQueue(), threading.Event()
        self.done.set()
        self.failed, self.kept_out = None, False
        self.thread = threading.Thread(target=self.work, daemon=True)
        self.thread.start()

    def work(self):
        while True:
            fn = self.todo.get()
            if fn is None:
                return
            try:
                fn()
            except BaseException as e:
                self.failed = e
            self.done.set()

    def run(self, fn, wait=0.25):
        """False if the function could not be started, since an earlier one is not done."""
        if not self.done.wait(0.02 if self.kept_out else wait):
            return False
        self.done.clear()
        self.todo.put(fn)
        self.kept_out = not self.done.wait(wait)
        return True

    def end(self):
        """Wait until nothing is running."""
        if not self.done.wait(20):
            raise Hang()
        self.todo.put(None)
        self.thread.join()
        if self.failed:
            raise self.failed


class Preempt:
    """with Preempt(hook): hook is called at every instruction of the package under test in this thread."""

    def __init__(self, hook):
        self.hook, self.root = hook, os.path.join(os.path.realpath(REPO), "atoparser") + os.sep

    def __enter__(self):
        sys.settrace(self.enter)

    def __exit__(self, *_):
        sys.settrace(None)

    def enter(self, frame, event, arg):
        if not os.path.realpath(frame.f_code.co_filename).startswith(self.root):
            return None
        frame.f_trace_opcodes = True
        return self.at

    def at(self, frame, event, arg):
        if event == "opcode":
            self.hook()
        return self.at


class Runner:
    """One trace: streams over logs, calls made, events recorded."""

    def __init__(self, code, logs, streams, workdir):
        self.ap, self.parsers = code
        self.logs, self.streams, self.work = logs, streams, workdir
        self.ev = []
        self.raw, self.hdr, self.iters, self.samples, self.part, self.ctr = {}, {}, {}, {}, {}, {}
        self.closers, self.shift, self.append, self.there, self.faults = [], {}, {}, {}, {}
        self.meant = []      # errors that were raised in the code on purpose
        for h, s in enumerate(streams, 1):
            if not s.get("late"):
                self.raw[h] = self.open(h, s)
            self.iters[h], self.samples[h] = [], []

    # -- sources

    # pre: what lies in front of the log in its source (a number of bytes, or the complete log of another index);
    # headless: the source holds only what follows the header, which is read from elsewhere, or is that of the
    # stream hdrof (over the same log).

    def before(self, s):
        pre = s.get("pre", 0)
        return self.logs[-pre - 1].data if pre < 0 else bytes(x * 37 % 251 for x in range(pre))

    def bytes_of(self, s):
        data = self.logs[s["log"] - 1].data
        data = data if s["avail"] < 0 else data[: s["avail"]]
        return self.before(s) + data[480 if s.get("headless") else 0 :]

    def open(self, h, s):
        f = self.open_at_start(h, s)
        n = len(self.before(s))
        self.shift[h] = (480 if s.get("headless") else 0) - n
        if n:
            if s.get("src", "mem") in ("pieces", "pipe"):
                f.read(n)
            else:
                f.seek(n)
        return f

    def open_at_start(self, h, s):
        data = self.bytes_of(s)
        kind = s.get("src", "mem")
        if kind == "mem":
            return io.BytesIO(data)
        if kind == "switch":
            return Switching(data)
        if kind in ("file", "gzfile", "raw"):
            path = os.path.join(self.work, s.get("path", f"s{h}") + (".gz" if kind == "gzfile" else ""))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path + ".new", "wb") as f:
                f.write(data if kind != "gzfile" else self.zipped(s))
            os.replace(path + ".new", path)
            f = gzip.open(path, "rb") if kind == "gzfile" else open(path, "rb", buffering=0 if kind == "raw" else -1)
            self.closers.append(f.close)
            return f
        if kind == "grows":
            f = Grows(data)
            self.append[h] = f.append
            return f
        if kind in ("growsfile", "growsgz", "growsbuf"):
            path = os.path.join(self.work, f"s{h}" + (".gz" if kind == "growsgz" else ""))
            w = open(path, "wb", buffering=0)
            self.closers.append(w.close)
            self.append[h] = (lambda b: w.write(gzip.compress(b))) if kind == "growsgz" else w.write
            self.append[h](data)
            f = gzip.open(path, "rb") if kind == "growsgz" else open(path, "rb") if kind == "growsbuf" else GrowsFile(io.FileIO(path))
            self.closers.append(f.close)
            return f
        if kind == "fails":
            f = Fails(data)
            self.faults[h] = f.faults
            return f
        if kind in ("failsfile", "failsgz"):
            path = os.path.join(self.work, f"s{h}" + (".gz" if kind == "failsgz" else ""))
            with open(path, "wb") as f:
                f.write(data if kind == "failsfile" else self.zipped(s))
            raw = FailsRaw(path)
            self.faults[h] = raw.faults
            f = io.BufferedReader(raw, s.get("buf", 8192))
            self.closers.append(f.close)
            return f if kind == "failsfile" else gzip.GzipFile(fileobj=f)
        if kind == "sum":
            return gzip.GzipFile(fileobj=io.BytesIO(s["zip"](data)))
        if kind == "gzcut":       # a gzip file cut at a byte of the compressed file
            return gzip.GzipFile(fileobj=io.BytesIO(gz(self.logs[s["log"] - 1].data)[: s["cut"]]))
        if kind == "gz":
            return gzip.GzipFile(fileobj=io.BytesIO(self.zipped(s)))
        if kind == "pieces":
            return io.BufferedReader(Pieces(data, s.get("sizes", [1, 7, 100, 4096])), s.get("buf", 8192))
        if kind == "arriving":
            self.arriving = Arriving(data)
            return io.BufferedReader(self.arriving, s.get("buf", 8192))
        if kind == "pipe":
            r, w = os.pipe()
            sizes = s.get("sizes", [1, 50, 3000, 65536])

            def feed():
                at = turn = 0
                try:
                    while at < len(data):
                        n = os.write(w, data[at : at + sizes[turn % len(sizes)]])
                        at += n
                        turn += 1
                except OSError:
                    pass
                finally:
                    os.close(w)

            t = threading.Thread(target=feed, daemon=True)
            t.start()
            f = os.fdopen(r, "rb")
            self.closers.append(f.close)
            return f
        raise KeyError(kind)

    def zipped(self, s):
        data = self.bytes_of(s)
        return gz(data) if not s["torn"] else gz(data, len(data))

    def close(self):
        for c in self.closers:
            try:
                c()
            except OSError:
                pass

    # -- recording

    def pos(self, h):
        s = self.streams[h - 1].get("src", "mem")
        if s in ("pieces", "pipe", "arriving"):
            return -1
        try:
            return self.raw[h].tell() + self.shift[h]
        except (OSError, EOFError, ValueError):
            return -1

    def log(self, **e):
        self.ev.append(e)
        return e

    striking = False

    def guarded(self, fn):
        try:
            return "ok", fn()
        except BaseException as e:
            return self.name(e), None
        finally:
            self.calm()

    def calm(self):
        """An interruption hits the first call of an operation only."""
        if self.striking:
            sys.setprofile(None)

    def name(self, e):
        if any(e is x for x in self.meant):
            return "fault"
        if isinstance(e, (Exception, Hang, Starved)):
            return errname(e)
        raise e

    @staticmethod
    def did(obj):
        try:
            return digest(bytes(obj))
        except (TypeError, ValueError):
            return "?" + type(obj).__name__

    def cgd(self, g):
        try:
            return digest(bytes(g.cstat) + bytes(g.proclist))
        except (TypeError, ValueError, AttributeError):
            return "?" + type(g).__name__

    def ids(self, smp):
        rec, ss, ts, cg = smp
        return {"rec": self.did(rec), "ss": self.did(ss), "ts": [self.did(t) for t in ts], "cg": [self.cgd(g) for g in cg]}

    # -- calls (each returns False when the trace cannot go on)

    def op_header(self, h, chk=True, attrs=None):
        src = self.raw[h]
        if self.streams[h - 1].get("headless"):
            src = io.BytesIO(self.logs[self.streams[h - 1]["log"] - 1].data[:480])
        other = self.streams[h - 1].get("hdrof")
        if other:
            out, hdr = "ok", self.header(other)
        else:
            out, hdr = self.guarded(lambda: self.ap.get_header(src) if chk is None else self.ap.get_header(src, chk))
        e = {"a": "header", "h": h, "chk": chk is None or chk, "out": out, "pos": self.pos(h), "sem": "", "sup": "", "major": -1, "minor": -1, "vals": []}
        if out == "ok":
            self.hdr[h] = hdr
            o, v = self.guarded(lambda: (hdr.semantic_version, hdr.major_version, hdr.minor_version, hdr.supported_version))
            if o == "ok":
                e["sem"], e["major"], e["minor"], e["sup"] = v
            e["vals"] = [[p, enc.path_value(hdr, p)] for p in attrs or []]
        self.log(**e)
        return out == "ok"

    # late: the source is only opened by op_open, possibly at the same path as an earlier one.

    def op_open(self, h):
        self.raw[h] = self.open(h, self.streams[h - 1])
        return True

    def op_forget(self, h):
        """Close a source and forget it, its header and its iterators (not the samples)."""
        self.iters[h].clear()
        self.hdr.pop(h, None)
        self.part.pop(h, None)
        self.raw[h].close()
        del self.raw[h]
        if self.closers:
            self.closers.pop()
        return True

    def header(self, h):
        """The header object of the stream; one of its own where an iterator has read the stream's."""
        other = self.streams[h - 1].get("hdrof")
        if other:
            return self.header(other)
        if h not in self.hdr:
            self.hdr[h] = self.ap.get_header(io.BytesIO(self.logs[self.streams[h - 1]["log"] - 1].data[:480]))
        return self.hdr[h]

    def op_record(self, h):
        out, rec = self.guarded(lambda: self.ap.get_record(self.raw[h], self.header(h)))
        if out == "ok":
            self.part[h] = [rec, None, [], []]
        self.log(a="record", h=h, out=out, rec=self.did(rec) if out == "ok" else "", pos=self.pos(h))
        return out == "ok"

    def _block(self, h, name, fn, slot, ident, last):
        out, v = self.guarded(lambda: fn(self.raw[h], self.header(h), self.part[h][0]))
        e = {"a": name, "h": h, "out": out, "pos": self.pos(h), "ss": "", "ts": [], "cg": []}
        if out == "ok":
            self.part[h][slot] = v
            o, w = self.guarded(lambda: ident(v))
            e[name[0] + name[1] if name == "sstat" else {"tstat": "ts", "cstat": "cg"}[name]] = w if o == "ok" else ("?" if name == "sstat" else ["?"])
            if last:
                self.samples[h].append(tuple(self.part[h]))
                if h in getattr(self, "watched", ()):
                    self.note(h)
        self.log(**e)
        return out == "ok"

    def op_sstat(self, h):
        return self._block(h, "sstat", self.ap.get_sstat, 1, self.did, False)

    def op_tstat(self, h):
        last = not layout.load().cgroups(self.ver(h))
        return self._block(h, "tstat", self.ap.get_tstat, 2, lambda v: [self.did(t) for t in v], last)

    def op_cstat(self, h):
        return self._block(h, "cstat", self.ap.get_cstat, 3, lambda v: [self.cgd(g) for g in v], True)

    def ver(self, h):
        return self.logs[self.streams[h - 1]["log"] - 1].ver

    def op_steps(self, h):
        """One sample with the individual functions."""
        ok = self.op_record(h) and self.op_sstat(h) and self.op_tstat(h)
        return ok and (not layout.load().cgroups(self.ver(h)) or self.op_cstat(h))

    def op_iter(self, h, limit=None, raise_=None, hdr=False):
        kw = {}
        if limit is not None:
            kw["max_samples"] = limit
        if raise_ is not None:
            kw["raise_on_truncation"] = raise_
        if not hdr:
            kw["header"] = self.header(h)
        out, it = self.guarded(lambda: iter(self.ap.generate_statistics(self.raw[h], **kw)))
        self.log(a="iter", h=h, limit=LIMIT if limit is None else limit, **{"raise": raise_ is not False}, hdr=hdr)
        self.iters[h].append(it)
        return out == "ok"

    def op_grow(self, h, to):
        """The log grows to so many bytes."""
        self.grow(h, to)
        self.log(a="grow", h=h, to=to)
        return True

    def grow(self, h, to):
        s = self.streams[h - 1]
        self.append[h](self.logs[s["log"] - 1].data[self.there.get(h, s["avail"]) : to])
        self.there[h] = to

    def op_nextgrow(self, h, k, at):
        """Call the iterator; before its n-th read (from 0), the log grows to at[n]."""
        turn, grew = [0], []

        def hook():
            to = at.get(turn[0])
            turn[0] += 1
            if to is not None:
                self.grow(h, to)
                grew.append(to)

        self.raw[h].hook = hook
        mark = len(self.ev)
        ok = self.op_next(h, k)
        self.raw[h].hook = None
        self.ev[mark]["grew"] = grew
        # What it did not come to.
        rest = [x for n, x in sorted(at.items()) if n >= turn[0]]
        for x in rest:
            self.op_grow(h, x)
        return ok

    def op_next(self, h, k=1):
        e = {"a": "next", "h": h, "k": k, "rec": "", "ss": "", "ts": [], "cg": []}
        slot = self.log(**e)     # in place before anything that runs inside the call
        smp = None
        try:
            smp = next(self.iters[h][k - 1])
            out = "sample"
        except StopIteration:
            out = "end"
        except BaseException as x:
            out = self.name(x)
        self.calm()
        slot["out"], slot["pos"] = out, self.pos(h)
        if out == "sample":
            o, i = self.guarded(lambda: self.ids(smp))
            if o == "ok":
                slot.update(i)
                self.samples[h].append(tuple(smp))
                if h in getattr(self, "watched", ()):
                    self.note(h)
            else:
                slot["out"] = "malformed"
        return slot["out"] == "sample"

    # Sources that fail, and interruptions.

    def op_fails(self, h, how, name, *args, **kw):
        """An operation (of one call) during which the source fails: how is {"bad": byte, "error", "once"}; or which is
        interrupted: {"turn": how many calls into it, "error"}."""
        error = ERRORS[how["error"]]()
        self.meant.append(error)
        mark, more = len(self.ev), {}
        op = lambda: getattr(self, "op_" + name)(h, *args, **kw)
        if "turn" in how:
            self.striking = True
            with Strike(how["turn"], error) as s:
                ok = op()
            self.striking = False
            more["stop"] = s.raised is not None
        else:
            f = self.faults[h]
            buffered = self.streams[h - 1]["src"] != "fails"     # some of it may have been read before
            f.arm(how["bad"], error, how.get("once", False))
            ok = op()
            if buffered:
                more["stop"] = f.raised is not None
            elif how["bad"] is not None:
                more["bad"] = how["bad"]
            f.arm(None, None, False)
        for e in self.ev[mark:]:
            if e["a"] in ("header", "record", "sstat", "tstat", "cstat", "next"):
                e.update(more)
        return ok

    def op_back(self, h, i, b=0):
        """Put the stream back to part b of sample i (0: the header)."""
        lg = self.logs[self.streams[h - 1]["log"] - 1]
        at = 0 if i == 0 else lg.bounds[i - 1][b] if i <= len(lg.bounds) else len(lg.data)
        o, _ = self.guarded(lambda: self.raw[h].seek(at - self.shift[h]))
        self.log(a="back", h=h, i=i, b=b)
        return o == "ok"

    def op_stopped(self, h, turn, error, fn):
        """A conversion that is interrupted."""
        x = ERRORS[error]()
        self.meant.append(x)
        with Strike(turn, x) as s:
            o, _ = self.guarded(lambda: fn(self))
        if s.raised is not None:
            self.log(a="stopped", h=h, out=o)
        return True

    def op_all(self, h, k=1, most=None):
        """Call the iterator until it ends, and once more (an ended iterator stays ended)."""
        n = 0
        while self.op_next(h, k):
            n += 1
            if most is not None and n >= most:
                return True
        if self.ev[-1]["out"] == "end":
            self.op_next(h, k)
        return True

    def op_close(self, h, k=1):
        """Abandon an iterator."""
        out, _ = self.guarded(getattr(self.iters[h][k - 1], "close", lambda: None))
        self.log(a="must", h=h, ok=out == "ok", what="an abandoned iterator closes")
        return True

    # Which samples exist as objects.

    def op_watch(self, h):
        """From now on, take note of the objects of the stream's samples, and of the memory in use."""
        if not hasattr(self, "watched"):
            self.watched, self.marks = {}, {}
        self.watched[h] = {}
        tracemalloc.start(1)
        self.op_mark(h)
        return True

    def note(self, h):
        refs = self.watched[h].setdefault(len(self.samples[h]), [])
        rec, ss, ts, cg = self.samples[h][-1]
        for obj in [rec, ss, *ts, *cg, *(o for g in cg for o in (getattr(g, "cstat", None), getattr(g, "proclist", None)))]:
            try:
                refs.append(weakref.ref(obj))
            except TypeError:
                pass

    @staticmethod
    def memory():
        gc.collect()
        snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(False, os.path.dirname(__file__) + "/*"),
                                                          tracemalloc.Filter(False, tracemalloc.__file__),
                                                          tracemalloc.Filter(False, weakref.__file__)])
        return sum(t.size for t in snap.traces)

    def op_mark(self, h):
        self.marks[h] = len(self.samples[h]), self.memory()
        return True

    def op_drop(self, h, keep=()):
        """Drop all samples but those."""
        for i in range(len(self.samples[h])):
            if i + 1 not in keep:
                self.samples[h][i] = None
        self.part[h] = [None, None, [], []]
        return True

    def op_hold(self, h, end=True):
        """Which of the samples exist; with end: how much memory was added since the last op_mark."""
        self.part[h] = [None, None, [], []]
        smps = self.samples[h]
        kept = [i + 1 for i, s in enumerate(smps) if s is not None]
        gc.collect()
        alive = [i for i, refs in self.watched[h].items() if any(r() is not None for r in refs)]
        n, before = self.marks[h]
        own = sum(self.sizes(h, i) for i in range(n + 1, len(smps) + 1) if i in kept)
        most = max([self.sizes(h, i) for i in range(1, len(smps) + 2)])
        grown = max(0, self.memory() - before) if end else 0
        self.log(a="hold", h=h, alive=alive, kept=kept, grown=grown, most=most, own=own)
        return True

    def sizes(self, h, i):
        lg = self.logs[self.streams[h - 1]["log"] - 1]
        s = lg.samples[(i - 1) % len(lg.samples)]
        lay = layout.load()
        groups = sum(1000 + size + 40 * pids for size, pids in s.cg or ())
        return lay.size(s.f["record"]) + lay.size(s.f["sstat"]) + s.tasks * lay.size(s.f["tstat"]) + groups

    def op_unwatch(self):
        tracemalloc.stop()
        return True

    def op_files(self, first=False):
        """How many more files are open than at the first call."""
        gc.collect()
        n = len(os.listdir("/proc/self/fd"))
        if first:
            self.fds = n
        else:
            self.log(a="files", h=1, more=n - self.fds)
        return True

    def op_held(self, h, i):
        o, e = self.guarded(lambda: self.ids(self.samples[h][i - 1]))
        self.log(a="held", h=h, i=i, **(e if o == "ok" else {"rec": "", "ss": "", "ts": [], "cg": []}))
        return True

    def obj(self, h, i, p, x):
        if p == "hdr":
            return self.header(h)
        smp = self.samples[h][i - 1]
        return smp[0] if p == "rec" else smp[1] if p == "ss" else smp[2][x - 1] if p == "ts" else smp[3][x - 1]

    def op_attrs(self, h, i, p, x, paths):
        o = self.guarded(lambda: self.obj(h, i, p, x))
        if o[0] != "ok":
            self.log(a="must", h=h, ok=False, what="element missing")
            return False
        obj = o[1] if p != "cg" else o[1].cstat
        self.log(a="attrs", h=h, i=i, p=p, x=x, vals=[[q, enc.path_value(obj, q)] for q in paths])
        return True

    def op_pids(self, h, i, x):
        o, v = self.guarded(lambda: [enc.value(n) for n in self.obj(h, i, "cg", x).proclist])
        self.log(a="pids", h=h, i=i, x=x, v=v if o == "ok" else [{"x": "?", "t": o}])
        return True

    def op_dict(self, h, i, p, x=0, json_too=True):
        o = self.guarded(lambda: self.obj(h, i, p, x))
        if o[0] != "ok":
            self.log(a="must", h=h, ok=False, what="element missing")
            return False
        o, d = self.guarded(lambda: self.ap.struct_to_dict(o[1]))
        self.log(a="dict", h=h, i=i, p=p, x=x, j=enc.value(d) if o == "ok" else {"x": "?", "t": o})
        if json_too and o == "ok":
            o, back = self.guarded(lambda: json.loads(json.dumps(d)))
            self.log(a="dict", h=h, i=i, p=p, x=x, j=enc.value(back) if o == "ok" else {"x": "?", "t": o})
        return True

    def op_convert(self, h, i):
        """Everything of a sample can be converted, serialized and, for 1.26, put into rows."""
        def all_():
            rec, ss, ts, cg = self.samples[h][i - 1]
            for obj in [rec, ss, *ts[:20], *cg[:20]]:
                json.dumps(self.ap.struct_to_dict(obj))
            if self.ver(h) == "1.26":
                for name in dir(self.parsers):
                    if name.startswith("parse_"):
                        json.dumps(list(getattr(self.parsers, name)(self.header(h), rec, ss, ts)))
        o, _ = self.guarded(all_)
        self.log(a="must", h=h, ok=o == "ok", what="a delivered sample can be converted: " + o)
        return True

    def op_inner(self, h, i, p, x, path):
        """The dictionary of a structure within a structure."""
        def get():
            obj = self.obj(h, i, p, x)
            obj = obj.cstat if p == "cg" else obj
            for n in path:
                obj = obj[n] if isinstance(n, int) else getattr(obj, n)
            return self.ap.struct_to_dict(obj)
        o, d = self.guarded(get)
        self.log(a="inner", h=h, i=i, p=p, x=x, path=path, j=enc.value(d) if o == "ok" else {"x": "?", "t": o})
        return True

    def op_mutate(self, h, i, p, x=0):
        """Overwrite one delivered object; every other delivered object must stay what it was.  Its own digest
        is replaced by the one it had, and it is not restored: the caller does not look at it again."""
        o, obj = self.guarded(lambda: self.obj(h, i, p, x))
        if o != "ok":
            self.log(a="must", h=h, ok=False, what="element missing")
            return False
        for part in ([obj.cstat, obj.proclist] if p == "cg" else [obj]):
            n = ctypes.sizeof(part)
            if n:
                ctypes.memset(ctypes.addressof(part), 0xA5, n)
        if not hasattr(self, "marred"):
            self.marred = {}
        self.marred[(h, i, p, x)] = True
        return True

    def op_others(self):
        """All delivered samples of all streams, apart from the objects that were overwritten."""
        marred = getattr(self, "marred", {})
        for h in self.samples:
            for i in range(1, len(self.samples[h]) + 1):
                o, e = self.guarded(lambda: self.ids(self.samples[h][i - 1]))
                if o != "ok":
                    self.log(a="held", h=h, i=i, rec="", ss="", ts=[], cg=[])
                    continue
                descs = self.logs[self.streams[h - 1]["log"] - 1].desc["s"]
                want = descs[i - 1]["id"] if i <= len(descs) else e
                for (mh, mi, p, x) in marred:
                    if (mh, mi) == (h, i):
                        if p in ("rec", "ss"):
                            e[p] = want[p]
                        else:
                            e[p][x - 1] = want[p][x - 1]
                self.log(a="held", h=h, i=i, **e)
        return True

    def op_mutate_header(self, h):
        hdr = self.hdr[h]
        ctypes.memset(ctypes.addressof(hdr), 0xA5, ctypes.sizeof(hdr))
        return True

    def op_mutate_dict(self, h, i, p, x=0):
        """Change a dictionary and everything in it; convert again."""
        o, d = self.guarded(lambda: self.ap.struct_to_dict(self.obj(h, i, p, x)))
        if o == "ok":
            _scramble(d)
        return self.op_dict(h, i, p, x, json_too=False)

    def parse(self, h, i, lab):
        rec, ss, ts, _ = self.samples[h][i - 1]
        return getattr(self.parsers, "parse_" + lab)(self.header(h), rec, ss, ts)

    def op_rows(self, h, i, lab):
        # All rows first: they are independent of one another, and of later calls whatever becomes of them.
        o, rows = self.guarded(lambda: list(self.parse(h, i, lab)))
        o, out = self.guarded(lambda: [enc.row(r) for r in rows]) if o == "ok" else (o, [])
        self.log(a="rows", h=h, i=i, lab=lab, out=o, rows=out if o == "ok" else [])
        for r in rows or ():
            if isinstance(r, dict):
                r.update({k: None for k in r}, parseable="x")
        return True

    def op_rowsmix(self, *which):
        """The rows of several labels and samples ([stream, sample, label]), taken in turn."""
        its, rows, res = [], [], []
        for w in which:
            o, it = self.guarded(lambda: iter(self.parse(*w)))
            its.append(it)
            rows.append([])
            res.append(o)
        todo = [n for n, it in enumerate(its) if it is not None]
        while todo:
            for n in list(todo):
                o, r = self.guarded(lambda: next(its[n], None))
                if o == "ok" and r is not None:
                    rows[n].append(r)
                else:
                    res[n] = o
                    todo.remove(n)
        for (h, i, lab), o, rs in zip(which, res, rows):
            o, out = self.guarded(lambda: [enc.row(r) for r in rs]) if o == "ok" else (o, [])
            self.log(a="rows", h=h, i=i, lab=lab, out=o, rows=out if o == "ok" else [])
        return True

    def op_drain(self, h, limit=None):
        """Read everything at once, keeping only what is needed to compare copies."""
        kw = {} if limit is None else {"max_samples": limit}
        want = self.logs[self.streams[h - 1]["log"] - 1].desc["s"][0]["id"]
        n, same, out = 0, True, "end"
        try:
            for smp in self.ap.generate_statistics(self.raw[h], self.header(h), **kw):
                if n % 977 == 0 and same:
                    same = self.ids(smp) == want
                n += 1
        except (Exception, Hang) as e:
            out = errname(e)
        self.log(a="drain", h=h, limit=LIMIT if limit is None else limit, count=n, same=same, out=out, pos=self.pos(h))
        return True

    def op_arrive(self, n):
        """The writer has delivered the first n bytes."""
        self.arriving.limit = n
        return True

    def put(self, files, fresh=False):
        """Write the files of a command, if they are not there; their paths."""
        names = []
        for h, name in files:
            path = os.path.join(self.work, name)
            names.append(path)
            if isinstance(h, list):
                other_file(path, *h)
                continue
            if fresh or not os.path.exists(path):
                s = self.streams[h - 1]
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    f.write(s["zip"](self.bytes_of(s)) if s.get("zip") else self.zipped(s) if name.endswith(".gz") else self.bytes_of(s))
        return names

    @staticmethod
    def arguments(names, labels, ts, cs, pretty, style):
        opts = ([["-p", "--pretty-print", "--pretty"][style % 3]] if pretty else []) + (["--tstats"] if ts else []) + (["--cstats"] if cs else [])
        opts = opts[::-1] if style & 2 else opts
        labs = [["-P", "--parseables"][style % 2], *labels] if labels else []
        return names + opts + labs if not style & 4 else labs + opts + ["--"] + names if not style & 8 else opts + names + labs

    def op_cli(self, files, labels=(), ts=False, cs=False, pretty=False, sub=False, style=0, few=None, fresh=False, hits=None):
        """The command on the given streams, as files in the scratch directory.  files: [stream, name], or
        [[kind, seed], name] for something that is not a log (see other_file).
        With few: only the length and so many entries of the arrays are kept.
        hits: files (from 1) during the reading of which the source fails, as in op_fails (None: as they are)."""
        names = self.put(files, fresh)
        argv = self.arguments(names, labels, ts, cs, pretty, style)
        files = [[0 if isinstance(h, list) else h, name] for h, name in files]
        told = self.log(a="cli", h=1, files=[h for h, _ in files], names=[list(n.encode("utf-8", "surrogatepass")) for n in names], labels=list(labels), ts=ts, cs=cs)
        failing = {}
        if hits:
            failing = {n: Failing() for n, how in hits.items() if how}
            for n, x in failing.items():
                x.arm(hits[n]["bad"], ERRORS[hits[n]["error"]](), False)
                self.meant.append(x.error)
        if sub:
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, "-m", "atoparser.reader", *argv], cwd=self.work, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, check=False)
            self.cli_out = p.stdout
            text, status = p.stdout.decode("utf-8", "replace"), p.returncode
            self.cli_said, self.cli_left = p.stderr, []
        else:
            import atoparser.reader
            out, old = io.StringIO(), (sys.argv, sys.stdout, sys.stderr)
            sys.argv, sys.stdout, sys.stderr = ["atoparser", *argv], out, io.StringIO()
            status = 0
            try:
                with opening({names[n - 1]: x for n, x in failing.items()}):
                    atoparser.reader.main()
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException as e:
                self.name(e)
                status = 1
            finally:
                self.cli_said = sys.stderr.getvalue() if isinstance(sys.stderr, io.StringIO) else "?"
                self.cli_left = [n for n, ok in (("arguments of the process", sys.argv == ["atoparser", *argv]), ("standard streams", sys.stdout is out)) if not ok]
                sys.argv, sys.stdout, sys.stderr = old
            text = out.getvalue()
        if hits:
            told["hit"] = [n for n, how in hits.items() if how is None or failing[n].raised is not None]
        dec, at, turn = json.JSONDecoder(), 0, 0
        while True:
            while at < len(text) and text[at].isspace():
                at += 1
            if at >= len(text):
                break
            try:
                doc, at = dec.raw_decode(text, at)
            except ValueError:
                break
            ver = list((self.ver(files[turn][0]) if turn < len(files) and files[turn][0] else "").encode())
            if few is None or not isinstance(doc, list):
                rows = [enc.row(x) for x in doc] if isinstance(doc, list) else [{"x": "?", "t": "no array"}]
                self.log(a="print", h=1, out=rows, verbytes=ver)
            else:
                n = len(doc)
                pick = sorted({x for x in [1, 2, n - 1, n] if 1 <= x <= n} | {1 + (7919 * x + style) % n for x in range(few if n else 0)})
                self.log(a="printn", h=1, total=n, at=[[x, enc.row(doc[x - 1])] for x in pick], verbytes=ver)
            turn += 1
        self.cli_status = status
        self.log(a="exit", h=1, status=status, rest=len(text) - at)
        return True

    def op_runs(self, files, kw, hows, rooms=()):
        """The command as in op_cli, then again as processes in other surroundings, and with too little room for what it
        prints (parts of the length)."""
        self.op_cli(files, sub=True, **kw)
        first = {"how": "", "status": self.cli_status, "out": process.digest(self.cli_out), "n": len(self.cli_out), "room": -1}
        names = self.put(files)
        argv = self.arguments(names, kw.get("labels", ()), kw.get("ts"), kw.get("cs"), kw.get("pretty"), kw.get("style", 0))
        runs = [first]
        for how in hows:
            status, out = process.run(REPO, argv, names, self.work, how)
            runs.append({"how": process.describe(how), "status": status, "out": process.digest(out), "n": len(out), "room": -1})
        # Variables that the command looks at, with values of all kinds.
        for x in process.asked(REPO, argv, self.work)[:6]:
            for value in ("1", "0", "", "no", "/nowhere", "json,x=2"):
                how = dict(process.ordinary(), more={x: value})
                status, out = process.run(REPO, argv, names, self.work, how)
                runs.append({"how": f"{x}={value}", "status": status, "out": process.digest(out), "n": len(out), "room": -1})
        for part, how in rooms:
            room = int(part * (first["n"] - 1))
            status, out = process.run(REPO, argv, names, self.work, dict(how, out="file"), room)
            runs.append({"how": process.describe(how), "status": status, "out": process.digest(out), "n": len(out), "room": room})
        self.log(a="runs", h=1, runs=runs)
        return True

    def op_must(self, h, ok, what):
        self.log(a="must", h=h, ok=bool(ok), what=what)
        return True

    # The world around calls: directories, standard output and error of their own.

    @contextlib.contextmanager
    def secluded(self, settings=()):
        """settings: what is unusual about the process (see world.SETTINGS)."""
        keep = sys.stdout, sys.stderr, dict(os.environ), os.getcwd(), tempfile.tempdir, os.dup(1), os.dup(2)
        fds = [os.memfd_create("out"), os.memfd_create("err")]
        for n in ("home", "tmp", "here"):
            os.makedirs(os.path.join(self.work, n))
        os.environ.update(HOME=self.work + "/home", TMPDIR=self.work + "/tmp", XDG_CACHE_HOME=self.work + "/home/.cache")
        tempfile.tempdir = self.work + "/tmp"
        os.chdir(self.work + "/here")
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        for n in (0, 1):
            os.dup2(fds[n], n + 1)
        texts = sys.stdout, sys.stderr
        self.said = [lambda n=n: texts[n].getvalue().encode() + os.pread(fds[n], 1 << 20, 0) for n in (0, 1)]
        world.take([self.work])      # whatever taking it loads
        undo = [world.SETTINGS[n]() for n in settings]
        try:
            yield
        finally:
            for fn in undo[::-1]:
                fn()
            sys.stdout, sys.stderr = keep[:2]
            os.environ.clear()
            os.environ.update(keep[2])
            os.chdir(keep[3])
            tempfile.tempdir = keep[4]
            for n in (0, 1):
                os.dup2(keep[5 + n], n + 1)
                os.close(keep[5 + n])
                os.close(fds[n])

    def around(self, call, h, op, *args, **kw):
        """An operation, and the world before and after it."""
        given = [x for x in (self.hdr.get(h), (self.part.get(h) or [None])[0]) if x is not None] if call not in ("header", "command") else []
        if call in ("dict", "rows"):
            smp = self.samples[h][args[1] - 1]
            given += [smp[0], smp[1], *smp[2], *[x for g in smp[3] for x in (g.cstat, g.proclist)]]
        see = lambda: world.take([self.work], self.raw.get(h), self.said, given)
        before = see()
        res = getattr(self, "op_" + op)(*args, **kw)
        after = see()
        if call == "command":
            # Whatever it said went elsewhere.
            after["stderr"] = after["stderr"] if not self.cli_said else "said"
            after.update(dict.fromkeys(self.cli_left, "other"))
            call = "failing command" if self.cli_status else call
        self.log(a="world", h=1, call=call, before=before, after=after)
        return res

    def op_import(self, *names):
        """Import modules of the package in a process of their own."""
        os.makedirs(self.work + "/import", exist_ok=True)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(HOME=self.work, TMPDIR=self.work, XDG_CACHE_HOME=self.work)
        p = subprocess.run([sys.executable, world.__file__, REPO, self.work, *names], cwd=self.work + "/import", env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, check=False)
        try:
            before, after, failed = json.loads(p.stdout)
        except ValueError:
            before, after, failed = {}, {}, "output is not what was expected"
        self.log(a="world", h=1, call="import", before=before, after=after)
        self.log(a="must", h=1, ok=not failed and not p.stderr, what="modules can be imported, quietly: " + failed)
        return True

    # -- whole traces

    def play(self, ops):
        for op in ops:
            name, args = op[0], op[1:]
            kw = args[-1] if args and isinstance(args[-1], dict) else {}
            args = args[:-1] if kw else args
            if not getattr(self, "op_" + name)(*args, **kw):
                break


def other_file(path, kind, seed):
    """A file that is not a log, or none at all."""
    r = random.Random(f"{kind}{seed}")
    if os.path.lexists(path):
        return
    if kind == "dir":
        os.makedirs(path)
    elif kind == "missing":
        pass
    else:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if kind == "empty":
            data = b""
        elif kind == "text":
            data = (b"ATOP - host  2020/01/01  00:00:00\n" * r.randrange(1, 60))[: r.randrange(1, 2000)]
        elif kind == "noise":
            data = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 4, 479, 480, 481, 3000])))
        elif kind == "zeros":
            data = bytes(r.choice([1, 480, 5000]))
        elif kind == "json":
            data = b"[]" * r.randrange(1, 400)
        # Text in a gzip container.
        data = gzip.compress(data) if r.random() < 0.5 and path.endswith(".gz") else data
        with open(path, "wb") as f:
            f.write(data)


def _scramble(d):
    for k in list(d) if isinstance(d, dict) else range(len(d)):
        if isinstance(d[k], (dict, list)):
            _scramble(d[k])
        d[k] = None
    d.clear()


# Bytes of the recorded traces of a batch, and of a trace (both far more than reading what the format allows gives);
# calls of a batch that do not return.
BATCH, TRACE, HANGS = (24 if os.environ.get("VERIF_TIER") != "thorough" else 240) << 20, 12 << 20, 3


def play_batch(batch, out, broken):
    """Run the traces of a batch in this process; writes its log descriptions and its traces.

    batch: {"logs": [Log...], "traces": [{"id", "str", "ops" or "script", ...}], "seconds": per trace}
    """
    code = load_code()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    out.write(json.dumps([g.desc for g in batch["logs"]], separators=(",", ":")) + "\n")
    written = hangs = 0
    for t in batch["traces"]:
        work = tempfile.mkdtemp(prefix="vt-run-")
        r = Runner(code, batch["logs"], t["str"], work)
        try:
            signal.setitimer(signal.ITIMER_REAL, batch.get("seconds", 20))
            try:
                if "script" in t:
                    t["script"](r, *t.get("args", ()))
                else:
                    r.play(t["ops"])
            except Hang:
                r.log(a="must", h=1, ok=False, what="a call does not return")
                hangs += 1
            except Exception:
                # What was recorded may explain it.
                broken.append(f"{t['id']}: {traceback.format_exc()}")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        finally:
            r.close()
            shutil.rmtree(work, ignore_errors=True)
        ev, size = [], 0
        for e in r.ev:
            size += len(json.dumps(e, separators=(",", ":")))
            if size > TRACE:
                ev.append({"a": "must", "h": 1, "ok": False, "what": "more is returned than a log can hold"})
                break
            ev.append(e)
        line = json.dumps({"id": t["id"], "str": [{"log": s["log"], "avail": s["avail"], "torn": s["torn"]} for s in t["str"]],
                           "ev": ev}, separators=(",", ":")) + "\n"
        out.write(line)
        out.flush()
        written += len(line)
        if written > BATCH or hangs >= HANGS:
            broken.append(f"{t['id']}: {written} bytes, {hangs} calls that do not return: the traces after it were not recorded")
            break


def stream(log=1, avail=-1, torn=False, src="mem", **more):
    return {"log": log, "avail": avail, "torn": torn, "src": src, **more}


def _child(make, arg, path):
    os.setsid()
    # Whatever the code under test prints is not ours.
    broken = []
    try:
        batch = make(arg) if make else arg
        with open(path, "w") as f:
            play_batch(batch, f, broken)
        code = 0
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        code = 3
    if broken:
        with open(path + ".broken", "w") as f:
            f.write("\n".join(broken))
    os._exit(code)


def run_batches(make, args, outdir, end, procs=8):
    """Fork a process per batch; returns the list of (arg index, path, exit code or "late")."""
    ctx = multiprocessing.get_context("fork")
    waiting = list(enumerate(args))
    running, done = {}, []
    while waiting or running:
        while waiting and len(running) < procs:
            n, a = waiting.pop(0)
            path = os.path.join(outdir, f"batch{n}.ndjson")
            p = ctx.Process(target=_child, args=(make, a, path))
            p.start()
            running[n] = (p, path)
        for n, (p, path) in list(running.items()):
            p.join(0.01)
            if p.exitcode is not None:
                done.append((n, path, p.exitcode))
                del running[n]
        if time.time() > end:
            for n, (p, path) in running.items():
                p.kill()
                p.join()
                done.append((n, path, "late"))
            done += [(n, os.path.join(outdir, f"batch{n}.ndjson"), "late") for n, _ in waiting]
            break
    return sorted(done, key=lambda x: x[0])
