"""Runs real processes (shells running pnut-generated scripts, host-built pnut)
in the process simulator (sim/ptsim.c): scratch directory, seeded scheduler,
planned faults on the simulated objects, recorded calls."""
import errno, os, shutil, subprocess, tempfile
import build, harness

UID = 65534
SHELLS = {}
for _s in ("dash", "bash", "ksh", "mksh", "yash", "zsh"):
    SHELLS[_s] = shutil.which(_s, path="/usr/local/bin:/usr/bin:/bin") or "/bin/" + _s
ENV = {"PATH": "/usr/bin:/bin"}


def hx(x):
    if isinstance(x, str):
        x = x.encode("latin1")
    return x.hex() or "-"


class Run:
    __slots__ = ("kind", "code", "out", "err", "files", "calls", "faults", "sched", "decisions", "ncalls", "escapes")


def rundir():
    """A directory the simulated user can write, emptied for each run."""
    d = os.path.join(harness.scratch(), "run")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chmod(d, 0o777)
    os.chmod(harness.scratch(), 0o755)
    return d


def run(exe, args, files=(), stdin=b"", stdin_kind="file", env=None, seed=1, faults=(), log=False, cpu=20, syscap=2000000, extra_fds=(), argv0=None,
        collect=(), stdout_kind="w", fsize=1 << 26, as_=0, mem=False, stderr_to=None, modes=None, env_list=None, persona=0, nofile=0):
    """files: {name: bytes}; faults: [(op, obj, n, "e"|"s", value)]; extra_fds: [(fd, kind, data)].
    Returns a Run; collect: names of files to read afterwards (None: every file)."""
    d = rundir()
    files = dict(files)
    for n, data in files.items():
        p = os.path.join(d, n).encode("latin1")       # names are bytes, shown as Latin-1
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.chmod(os.path.dirname(p), 0o777)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("latin1"))
        os.chmod(p, (modes or {}).get(n, 0o666))
    L = ["cwd " + d, "exe " + exe, "uid %d" % UID, "seed %d" % seed, "cpu %d" % cpu, "sys %d" % syscap, "fsize %d" % fsize, "as %d" % as_]
    if log:
        L.append("log %d" % log)
    if nofile:
        L.append("nofile %d" % nofile)
    if persona:
        L.append("persona %d" % persona)
    if mem:
        L.append("mem 1")
    for a in [argv0 or exe] + list(args):
        L.append("arg " + hx2(a))
    if env_list is None:
        env_list = ["%s=%s" % kv for kv in (ENV if env is None else env).items()]
    for e in env_list:
        L.append("env " + hx2(e))
    if stdin_kind == "pipe":
        L.append("fd 0 pipe " + hx2(stdin))
    elif stdin_kind == "close":
        L.append("fd 0 close")
    else:
        with open(os.path.join(d, ".stdin"), "wb") as f:
            f.write(stdin)
        os.chmod(os.path.join(d, ".stdin"), 0o666)
        L.append("fd 0 r " + hx2(".stdin"))
    L.append("fd 1 %s %s" % (stdout_kind, hx2(".stdout") if stdout_kind != "close" else ""))
    if stderr_to == "close":
        L.append("fd 2 close")
    else:
        L.append("fd 2 w " + hx2(".stderr"))
    for fd, kind, data in extra_fds:
        L.append("fd %d %s %s" % (fd, kind, hx2(data)))
    for op, obj, n, act, v in faults:
        L.append("fault %s %s %d %s %d" % (op, hx2(obj), n, act, v))
    p = subprocess.run([build.ptsim()], input=("\n".join(L) + "\n").encode("latin1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    r = Run()
    r.kind, r.code, r.calls, r.faults, r.sched, r.decisions, r.ncalls, r.escapes = "error", "no end", [], [], "", 0, 0, 0
    for line in p.stdout.decode("latin1").splitlines():
        w = line.split(" ")
        if w[0] == "call":
            r.calls.append((w[1], bytes.fromhex(w[2]).decode("latin1"), int(w[3]), int(w[4])))
        elif w[0] == "fault":
            r.faults.append((int(w[1]), int(w[2])))
        elif w[0] == "sched":
            r.decisions, r.sched, r.ncalls, r.escapes = int(w[1]), w[2], int(w[3]), int(w[4])
        elif w[0] == "end":
            r.kind, r.code = w[1], int(w[2]) if w[1] in ("exit", "signal") else " ".join(w[2:])
    if r.kind == "error":
        raise RuntimeError("ptsim: %s %s" % (r.code, p.stderr[-300:]))
    r.out = slurp(d, ".stdout")
    r.err = slurp(d, ".stderr")
    r.files = {}
    if collect is None:
        for base, _, fs in os.walk(d.encode()):
            for f in fs:
                n = os.path.relpath(os.path.join(base, f), d.encode()).decode("latin1")
                if n not in (".stdin", ".stdout", ".stderr"):
                    r.files[n] = slurp(d, n)
    else:
        for n in collect:
            r.files[n] = slurp(d, n)
    return r


def hx2(x):
    if isinstance(x, str):
        x = x.encode("latin1")
    return x.hex()


def slurp(d, n):
    try:
        with open(os.path.join(d, n).encode("latin1"), "rb") as f:
            return f.read(1 << 24)
    except OSError:
        return b""
