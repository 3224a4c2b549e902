"""The command as a process, in many kinds of surroundings."""

import hashlib
import os
import pty
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import tty

CODE = "import sys; sys.path.insert(0, {repo!r}); sys.argv = ['atoparser'] + sys.argv[1:]; from atoparser.reader import main; {call}"

# The command, with a note of the variables of the environment that it looks at (itself or through the library).
ASKED = """
import os, sys
repo, note = {repo!r}, {note!r}
sys.path.insert(0, repo)
asked, where = [], os.path.join(os.path.realpath(repo), "atoparser") + os.sep
kind, inner = type(os.environ), type(os.environ).__getitem__
def look(self, key):
    f, n = sys._getframe(1), 0
    while f is not None and n < 60:
        if os.path.realpath(f.f_code.co_filename).startswith(where):
            if key not in asked:
                asked.append(key)
            break
        f, n = f.f_back, n + 1
    return inner(self, key)
kind.__getitem__ = look
sys.argv = ["atoparser"] + sys.argv[1:]
try:
    from atoparser.reader import main
    main()
finally:
    with open(note, "w") as f:
        f.write("\\n".join(str(x) for x in asked))
"""
# These are for translations of messages, and looked at by the standard library.
KNOWN = {"LANGUAGE", "LC_ALL", "LC_MESSAGES", "LANG", "COLUMNS", "LINES"}


def asked(repo, argv, work):
    """The variables that the command looks at."""
    note = os.path.join(work, ".asked")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo)
    try:
        subprocess.run([sys.executable, "-c", ASKED.format(repo=repo, note=note), *argv], cwd=work, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, check=False)
        with open(note, encoding="utf-8", errors="replace") as f:
            return [x for x in f.read().split("\n") if x and x not in KNOWN]
    except (OSError, subprocess.SubprocessError):
        return []
    finally:
        if os.path.exists(note):
            os.unlink(note)


# What may differ between two runs of the same command; the first of each is what is ordinary.
DIMENSIONS = {
    "start": ["module", "script", "code", "entry"],
    "flags": [[], ["-O"], ["-OO"], ["-W", "error"], ["-X", "dev"], ["-u"], ["-s", "-B"], ["-X", "utf8"]],
    "hash": [None, "0", "1", "4711", "random"],
    "locale": [{}, {"LC_ALL": "C"}, {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}, {"LANG": "xx_YY.ISO-8859-1"},
               {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"PYTHONIOENCODING": "ascii"},
               {"PYTHONIOENCODING": "latin-1"}, {"PYTHONIOENCODING": "utf-8:replace"}],
    "zone": [None, "UTC", "Asia/Kathmandu", "XYZ-13", "America/New_York", "Europe/Berlin"],
    "out": ["pipe", "file", "terminal", "append"],
    "in": ["null", "closed", "text"],
    "where": ["here", "root", "other"],
    "home": [None, "empty", "missing"],
    "more": [{}, {"DEBUG": "1", "ATOPARSER_DEBUG": "1", "VERBOSE": "1"}, {"COLUMNS": "20", "LINES": "5"}, {"TERM": "dumb", "NO_COLOR": "1"},
             {"TERM": "xterm-256color", "FORCE_COLOR": "1"}, {"ATOP": "x", "ATOPRC": "/etc/atoprc", "PAGER": "cat"}, {"USER": "nobody", "LOGNAME": "nobody"},
             {"SOURCE_DATE_EPOCH": "1", "PYTHONWARNINGS": "default"}],
    "limit": [None, 12],
    "files": ["plain", "link", "fifo", "readonly", "old"],
}


def ordinary():
    return {k: v[0] for k, v in DIMENSIONS.items()}


def some(r, most=4):
    """Surroundings in which a few things are not as usual."""
    res = ordinary()
    for k in r.sample(sorted(DIMENSIONS), r.randrange(1, most + 1)):
        res[k] = r.choice(DIMENSIONS[k][1:])
    return res


def arrange(paths, how, back):
    """Have the files of a command be links, pipes, ...; returns what undoes it."""
    undo = []
    for path in dict.fromkeys(paths):
        if not os.path.isfile(path):
            continue
        if how == "readonly":
            os.chmod(path, 0o400)
        elif how == "old":
            os.utime(path, (1000, 1000))
        elif how in ("link", "fifo") and paths.count(path) == 1:
            keep = os.path.join(back, f"kept{len(undo)}")
            os.rename(path, keep)
            undo.append((keep, path))
            if how == "link":
                os.symlink(keep, path)
            else:
                os.mkfifo(path)

                def feed(keep=keep, path=path):
                    try:
                        with open(keep, "rb") as f, open(path, "wb", buffering=0) as p:
                            shutil.copyfileobj(f, p, 3000)
                    except OSError:
                        pass     # nobody reads it to its end
                threading.Thread(target=feed, daemon=True).start()

    def back_again():
        for keep, path in undo:
            if how == "fifo":
                # Somebody may still wait for a reader.
                os.close(os.open(path, os.O_RDONLY | os.O_NONBLOCK))
            os.replace(keep, path)
    return back_again


def read_all(fd):
    res = b""
    while True:
        try:
            b = os.read(fd, 1 << 16)
        except OSError:
            b = b""
        if not b:
            return res
        res += b


def run(repo, argv, paths, work, how, room=None):
    """Run the command; returns (exit status, standard output).  room: bytes after which the disk is full."""
    own = tempfile.mkdtemp(prefix="p", dir=work)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG")) and k not in ("TZ", "COLUMNS", "LINES")}
    env.update(how["locale"], PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", **how["more"])
    if how["hash"]:
        env["PYTHONHASHSEED"] = how["hash"]
    if how["zone"]:
        env["TZ"] = how["zone"]
    if how["home"]:
        env["HOME"] = os.path.join(own, "home")
        if how["home"] == "empty":
            os.mkdir(env["HOME"])
    code = CODE.format(repo=repo, call={"entry": "sys.exit(main())"}.get(how["start"], "main()"))
    # Unbuffered, Python itself drops what a short write leaves over without an error: no case for a disk that fills up.
    flags = [f for f in how["flags"] if not (room and f == "-u")]
    cmd = [sys.executable, *flags, *{"module": ["-m", "atoparser.reader"], "script": [os.path.join(repo, "atoparser", "reader.py")]}.get(how["start"], ["-c", code]), *argv]
    other = os.path.join(own, "cwd")
    os.mkdir(other)
    cwd = {"here": work, "root": "/", "other": other}[how["where"]]
    master, text = None, os.path.join(own, "out")
    head = b""
    if how["out"] == "terminal":
        master, slave = pty.openpty()
        tty.setraw(slave)
        out = slave
    elif how["out"] == "pipe":
        master, slave = os.pipe()
        out = slave
    else:
        if how["out"] == "append":
            head = b"before\n"
            with open(text, "wb") as f:
                f.write(head)
        out = slave = os.open(text, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    if room == 0:
        out = os.open("/dev/full", os.O_WRONLY)
    stdin = {"null": subprocess.DEVNULL, "closed": None, "text": None}[how["in"]]
    if how["in"] == "text":
        with open(os.path.join(own, "in"), "w") as f:
            f.write("yes\n" * 100)
        stdin = os.open(os.path.join(own, "in"), os.O_RDONLY)

    def before():
        if how["in"] == "closed":
            os.close(0)
        if how["limit"]:
            resource.setrlimit(resource.RLIMIT_NOFILE, (how["limit"], how["limit"]))
        if room:
            resource.setrlimit(resource.RLIMIT_FSIZE, (room + len(head), room + len(head)))
    undo = arrange(paths, how["files"], own)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=stdin, stdout=out, stderr=subprocess.DEVNULL, preexec_fn=before)
        got = []
        if master is not None:
            os.close(slave)
            t = threading.Thread(target=lambda: got.append(read_all(master)), daemon=True)
            t.start()
        try:
            status = p.wait(60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            status = -1000
        if master is not None:
            t.join(20)
            data = got[0] if got else b""
        else:
            with open(text, "rb") as f:
                data = f.read()
            data = data[len(head):] if data.startswith(head) else b"?" + data
    finally:
        undo()
        for fd in {master, out, stdin, slave if master is None else None} - {None}:
            try:
                if fd >= 0:
                    os.close(fd)
            except OSError:
                pass
        shutil.rmtree(own, ignore_errors=True)
    return status, data


def describe(how):
    usual = ordinary()
    return " ".join(f"{k}={v}" for k, v in how.items() if v != usual[k]) or "ordinary"


def digest(data):
    return hashlib.blake2b(data, digest_size=8).hexdigest()
