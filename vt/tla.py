"""Running TLC."""

import ctypes
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")


class MachineryError(Exception):
    """The verification machinery itself failed (never a verdict about the code)."""


class TimedOut(MachineryError):
    """TLC was stopped; args[1] is what it had printed."""


def scratch():
    """A directory outside /repo and /verif that the caller removes."""
    return tempfile.mkdtemp(prefix="vt-")


RUNNING = {}
LIBC = ctypes.CDLL(None)


def with_parent():
    """End this process as soon as its parent ends (PR_SET_PDEATHSIG)."""
    LIBC.prctl(1, signal.SIGKILL)


def stop():
    """End the TLC processes that are still running, and remove what they wrote."""
    for proc, work in list(RUNNING.values()):
        proc.kill()
        proc.wait()
        shutil.rmtree(work, ignore_errors=True)
    RUNNING.clear()


def start(module, cfg, env=None, workers=1, heap="2g", extra=()):
    """Start TLC on spec/<module>.tla with spec/<cfg>.cfg; returns a handle for finish()."""
    work = scratch()
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-XX:TieredStopAtLevel=4",
           f"-XX:ParallelGCThreads={max(1, min(workers, 4))}", f"-Djava.io.tmpdir={work}", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg + ".cfg"), *extra, os.path.join(SPEC, module + ".tla")]
    full = dict(os.environ, **(env or {}))
    out = open(os.path.join(work, "out"), "w+")
    proc = subprocess.Popen(cmd, cwd=work, env=full, stdout=out, stderr=subprocess.STDOUT, preexec_fn=with_parent)
    RUNNING[proc.pid] = proc, work
    return proc, out, work, module


def finish(handle, timeout=800, accept=(0,)):
    """Wait for TLC; returns dict(states, distinct, text)."""
    proc, out, work, module = handle
    try:
        code = proc.wait(timeout)
        out.seek(0)
        text = out.read()
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.wait()
        out.seek(0)
        raise TimedOut(f"TLC on {module} timed out", out.read()) from None
    finally:
        out.close()
        RUNNING.pop(proc.pid, None)
        shutil.rmtree(work, ignore_errors=True)
    if code not in accept:
        raise MachineryError(f"TLC on {module} failed ({code}):\n" + (text if len(text) < 6000 else text[:1000] + "\n...\n" + text[text.find("Error:"):][:6000]))
    found = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
    sim = re.findall(r"The number of states generated: (\d+)", text)
    states = int(found[-1][0]) if found else int(sim[-1]) if sim else 0
    distinct = int(found[-1][1]) if found else states
    depth = re.findall(r"depth of the complete state graph search is (\d+)", text)
    return {"generated": states, "distinct": distinct, "depth": int(depth[-1]) if depth else 0, "text": text, "code": code}


def run(module, cfg, timeout=800, accept=(0,), **kw):
    return finish(start(module, cfg, **kw), timeout, accept)


def printed(text, prefix):
    """JSON values printed as PrintT(prefix \\o ToJson(x))."""
    res = []
    for line in text.splitlines():
        if line.startswith('"' + prefix):
            res.append(json.loads(json.loads(line)[len(prefix):]))
    return res
