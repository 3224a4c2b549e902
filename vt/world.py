"""What a call could change outside the library: a dictionary from aspects to values (short texts)."""

import argparse
import builtins
import codecs
import ctypes
import decimal
import fcntl
import faulthandler
import gc
import gzip
import hashlib
import importlib
import io
import json
import locale
import logging
import math
import os
import random
import resource
import signal
import stat
import struct
import sys
import threading
import time
import tracemalloc
import warnings
import zlib

LIBRARY = [argparse, builtins, codecs, ctypes, gzip, importlib, io, json, json.decoder, json.encoder, locale, logging, math,
           os, os.path, random, signal, struct, sys, threading, time, warnings, zlib]


def _swap(get, put, value):
    old = get()
    put(value)
    return lambda: put(old)


def _signal(n, value):
    old = signal.signal(n, value)
    return lambda: signal.signal(n, old)


def _filters():
    old = warnings.filters[:]
    warnings.filterwarnings("ignore", message="nothing in particular")

    def undo():
        warnings.filters[:] = old
        warnings._filters_mutated()     # pylint: disable=no-member
    return undo


def _variable(name, value, then=lambda: None):
    old = os.environ.get(name)
    os.environ[name] = value
    then()

    def undo():
        os.environ.pop(name)
        if old is not None:
            os.environ[name] = old
        then()
    return undo


def _gc_off():
    gc.disable()
    return gc.enable


def _umask(value):
    old = os.umask(value)
    return lambda: os.umask(old)


def _locale(value):
    old = locale.setlocale(locale.LC_ALL)
    locale.setlocale(locale.LC_ALL, value)
    return lambda: locale.setlocale(locale.LC_ALL, old)


def _level(value):
    old = logging.root.manager.disable
    logging.disable(value)
    return lambda: logging.disable(old)


# What may be unusual about a process; each returns how to undo it.
SETTINGS = {
    "gc off": _gc_off,
    "gc threshold": lambda: (lambda old: lambda: gc.set_threshold(*old))((gc.get_threshold(), gc.set_threshold(5000, 7, 7))[0]),
    "recursion": lambda: _swap(sys.getrecursionlimit, sys.setrecursionlimit, 3456),
    "recursion low": lambda: _swap(sys.getrecursionlimit, sys.setrecursionlimit, 400),
    "switch": lambda: _swap(sys.getswitchinterval, sys.setswitchinterval, 0.25),
    "digits": lambda: _swap(sys.get_int_max_str_digits, sys.set_int_max_str_digits, 0),
    "umask": lambda: _umask(0o007),
    "locale": lambda: _locale("C.UTF-8"),
    "sigpipe": lambda: _signal(signal.SIGPIPE, signal.SIG_DFL),
    "sigint": lambda: _signal(signal.SIGINT, lambda *_: None),
    "sigterm": lambda: _signal(signal.SIGTERM, signal.SIG_IGN),
    "filters": _filters,
    "time zone": lambda: _variable("TZ", "XYZ5:30", time.tzset),
    "encoding": lambda: _variable("PYTHONIOENCODING", "ascii"),
    "columns": lambda: _variable("COLUMNS", "33"),
    "logging": lambda: _level(logging.CRITICAL),
    "decimal": lambda: _swap(lambda: decimal.getcontext().prec, lambda v: setattr(decimal.getcontext(), "prec", v), 7),
    "dlopen": lambda: _swap(sys.getdlopenflags, sys.setdlopenflags, 2),
    "tracebacks": lambda: (setattr(sys, "tracebacklimit", 3), lambda: delattr(sys, "tracebacklimit"))[1],
}


def _hash(v):
    return hashlib.blake2b(v if isinstance(v, bytes) else repr(v).encode("utf-8", "surrogateescape"), digest_size=6).hexdigest()


def functions():
    """The functions and classes of the standard library, and what is in the classes."""
    res = []
    for m in LIBRARY:
        for n, v in sorted(vars(m).items()):
            if callable(v):
                res.append((m.__name__, n, id(v), repr(getattr(v, "__defaults__", None)), repr(getattr(v, "__kwdefaults__", None))))
                if isinstance(v, type) and v.__module__ == m.__name__:
                    res += [(m.__name__, n, k, id(x)) for k, x in sorted(vars(v).items()) if callable(x)]
    return res


def tree(*roots):
    """All files under some directories."""
    res = []
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            s = os.stat(d)
            res.append((d, s.st_mode, s.st_uid, s.st_gid, s.st_mtime_ns))
            for f in sorted(fs + [x for x in ds if os.path.islink(os.path.join(d, x))]):
                p = os.path.join(d, f)
                s = os.lstat(p)
                content = b""
                if stat.S_ISREG(s.st_mode):
                    with open(p, "rb", buffering=0) as g:
                        content = g.read()
                res.append((p, s.st_mode, s.st_uid, s.st_gid, s.st_size, s.st_mtime_ns, s.st_ino, s.st_nlink, _hash(content)))
    return res


def descriptors():
    res = []
    for n in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            res.append((n, os.readlink(f"/proc/self/fd/{n}"), fcntl.fcntl(int(n), fcntl.F_GETFD), fcntl.fcntl(int(n), fcntl.F_GETFL)))
        except OSError:
            pass     # the listing itself
    return res


def children():
    res = []
    for t in os.listdir("/proc/self/task"):
        with open(f"/proc/self/task/{t}/children") as f:
            res += f.read().split()
    return sorted(res)


def handlers():
    res = []
    for s in sorted(signal.valid_signals()):
        try:
            res.append((int(s), id(signal.getsignal(s)) if callable(signal.getsignal(s)) else repr(signal.getsignal(s))))
        except (ValueError, OSError):
            pass
    return res + sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))


def source(f):
    if f is None:
        return ""
    if f.closed:
        return "closed"
    if isinstance(f, io.BytesIO):
        return _hash(f.getvalue())
    raw = f.fileno() if not isinstance(f, gzip.GzipFile) or not isinstance(f.fileobj, io.BytesIO) else None
    if raw is None:
        return _hash((f.fileobj.closed, _hash(f.fileobj.getvalue())))
    s = os.fstat(raw)
    return _hash((s.st_ino, s.st_size, s.st_mtime_ns, s.st_mode, s.st_nlink, os.get_blocking(raw), os.get_inheritable(raw)))


def position(f):
    try:
        return str(f.tell())
    except (OSError, EOFError, ValueError, AttributeError):
        return "?"


LIMITS = [getattr(resource, n) for n in sorted(dir(resource)) if n.startswith("RLIMIT_")]


def take(roots=(), stream=None, outs=None, args=()):
    """roots: directories to look at; outs: where standard output and error go, as functions; args: objects given to the calls."""
    gc.collect()
    ctx = decimal.getcontext()
    w = {
        "position": position(stream),
        "source": source(stream),
        "arguments": _hash([bytes(a) for a in args]),
        "stdout": _hash(outs[0]()) if outs else "",
        "stderr": _hash(outs[1]()) if outs else "",
        "files": _hash(tree(*roots)),
        "descriptors": _hash(descriptors()),
        "threads": _hash((sorted(os.listdir("/proc/self/task")), threading.active_count())),
        "child processes": _hash(children()),
        "working directory": os.getcwd(),
        "environment": _hash(sorted(os.environ.items())),
        "arguments of the process": _hash((sys.argv, sys.orig_argv)),
        "import path": _hash((sys.path, [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks], sys.dont_write_bytecode)),
        "standard streams": _hash([id(x) for x in (sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__)]),
        "hooks": _hash([id(x) if callable(x) else repr(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, sys.breakpointhook,
                                                                    threading.excepthook, sys.gettrace(), sys.getprofile(), builtins.__import__)]),
        "signals": _hash(handlers()),
        "timers": _hash((signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF))),
        "locale": _hash(locale.setlocale(locale.LC_ALL, None)),
        "time zone": _hash((time.tzname, time.timezone)),
        "recursion limit": str(sys.getrecursionlimit()),
        "interpreter": _hash((sys.getswitchinterval(), sys.getdlopenflags(), sys.get_int_max_str_digits(), faulthandler.is_enabled(),
                              tracemalloc.is_tracing(), getattr(sys, "tracebacklimit", None))),
        "garbage collection": _hash((gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count())),
        "random numbers": _hash(random.getstate()),
        "decimal context": _hash((ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, ctx.capitals, ctx.clamp, sorted(map(repr, ctx.traps.items())))),
        "warning filters": _hash((warnings.filters, id(warnings.showwarning))),
        "logging": _hash((logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions,
                          id(logging.getLoggerClass()), [logging.getLevelName(x) for x in range(0, 60, 10)])),
        "standard library": _hash(functions()),
        "process": _hash((os.getresuid(), os.getresgid(), os.getgroups(), os.getpgid(0), os.getsid(0), os.getpriority(os.PRIO_PROCESS, 0),
                          sorted(os.sched_getaffinity(0)), [resource.getrlimit(x) for x in LIMITS])),
    }
    mask = os.umask(0o77)
    os.umask(mask)
    w["mode mask"] = oct(mask)
    return w


if __name__ == "__main__":
    # Import the package: python world.py REPO DIR MODULE...; prints the world before and after.
    repo, work, *names = sys.argv[1:]
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    outs = [io.StringIO(), io.StringIO()]
    real = sys.stdout
    sys.stdout, sys.stderr = outs
    fns = [o.getvalue for o in outs]
    take([work], outs=fns)
    before = take([work], outs=fns)
    failed = ""
    try:
        for n in names:
            importlib.import_module(n)
    except BaseException as e:
        failed = repr(e)
    after = take([work], outs=fns)
    sys.stdout = real
    print(json.dumps([before, after, failed]))
