"""Builds, from the current working tree of /repo, every pnut variant the checks
run. Build products go to /verif/.build (git-ignored), keyed by a hash of the
sources, so that a changed tree is always rebuilt and an unchanged one is not."""
import fcntl, hashlib, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PNUT_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

SH_TEST = ["-Dsh", "-DRT_NO_INIT_GLOBALS"]
VARIANTS = {
    "sh": SH_TEST,
    "sh-fast": SH_TEST + ["-DSH_SAVE_VARS_WITH_SET"],
    "sh-rel": ["-DRELEASE_PNUT_SH"],
    "sh-plain": ["-Dsh"],
    "sh-compact": SH_TEST + ["-DRT_COMPACT"],
    "i386": ["-Dtarget_i386_linux"],
    "x64": ["-Dtarget_x86_64_linux"],
    "mac": ["-Dtarget_x86_64_mac"],
    "i386-rel": ["-DRELEASE_PNUT_i386_linux"],
    "x64-rel": ["-DRELEASE_PNUT_x86_64_linux"],
    "mac-rel": ["-DRELEASE_PNUT_x86_64_mac"],
    "sh-printf": SH_TEST + ["-DSH_AVOID_PRINTF_USE_NOT"],
    "sh-keep": SH_TEST + ["-DRT_FREE_UNSETS_VARS_NOT"],
    "sh-inc-c": SH_TEST + ["-DSH_INCLUDE_C_CODE"],
    "sh-safe": SH_TEST + ["-DSAFE_MODE"],
    "i386-safe": ["-Dtarget_i386_linux", "-DSAFE_MODE"],
}


class BuildError(Exception):
    pass


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


_src = None


def sources():
    """{relative path: bytes} of the compiler's sources."""
    global _src
    if _src is None:
        _src = {}
        for d in ("", "portable_libc", "portable_libc/include", "portable_libc/include/sys", "portable_libc/src"):
            p = os.path.join(REPO, d)
            if os.path.isdir(p):
                for f in sorted(os.listdir(p)):
                    if f.endswith((".c", ".h")) and os.path.isfile(os.path.join(p, f)):
                        _src[os.path.join(d, f)] = open(os.path.join(p, f), "rb").read()
    return _src


_key = None


def source_key():
    global _key
    if _key is None:
        s = sources()
        _key = _h(*[x for n in sorted(s) if "/" not in n for x in (n, s[n])])
    return _key


def cached(kind, key, make):
    """Path of the product of make(tmp_path), built at most once per key."""
    d = os.path.join(OUT, kind)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, key)
    if os.path.exists(path):
        return path
    with open(path + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(path):
            tmp = "%s.tmp%d" % (path, os.getpid())
            make(tmp)
            os.rename(tmp, path)
    try:
        os.unlink(path + ".lock")
    except OSError:
        pass
    return path


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("latin1")[-4000:]))
    return p.stdout


def x86sim():
    src = os.path.join(VERIF, "sim", "x86sim.cpp")
    return cached("sim", "libx86sim-%s.so" % _h(open(src, "rb").read()), lambda t: _run(["g++", "-O2", "-w", "-shared", "-fPIC", "-o", t, src]))


def ptsim():
    src = os.path.join(VERIF, "sim", "ptsim.c")
    return cached("sim", "ptsim-%s" % _h(open(src, "rb").read()), lambda t: _run(["gcc", "-O2", "-w", "-o", t, src]))


# host builds that differ in everything the C standard leaves open
BUILDS = {
    "gcc -O0": ["gcc", "-w", "-O0"],
    "gcc -O3 pattern": ["gcc", "-w", "-O3", "-fwrapv", "-ftrivial-auto-var-init=pattern"],
    "clang -O2": ["/usr/bin/clang", "-w", "-O2", "-fwrapv"],
    "clang -O0 pattern": ["/usr/bin/clang", "-w", "-O0", "-ftrivial-auto-var-init=pattern"],
    "asan": ["gcc", "-w", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "msan": ["/usr/bin/clang", "-w", "-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"],
}


def pnut(variant, extra=(), san=False, opt="-O1", kind=None):
    """Path of a host-built pnut. kind: one of BUILDS; san: the same as kind "asan"."""
    flags = list(VARIANTS[variant]) + list(extra)
    kind = "asan" if san else kind
    cc = BUILDS[kind] if kind else ["gcc", "-w", opt]
    key = "%s-%s%s" % (variant, _h(source_key(), *flags, *cc), "-" + kind.replace(" ", "") if kind else "")
    return cached("pnut", key, lambda t: _run(cc + flags + ["-o", t, os.path.join(REPO, "pnut.c")], cwd=REPO))


def boot(variant, host):
    """Path of pnut (variant) compiled by the host-built pnut for host (i386, x64, mac, or a sh variant)."""
    exe = pnut(host)
    def make(t):
        with open(t, "wb") as f:
            p = subprocess.run([exe] + VARIANTS[variant] + [os.path.join(REPO, "pnut.c")], cwd=REPO, stdout=f, stderr=subprocess.PIPE)
        if p.returncode:
            raise BuildError("pnut (%s) does not compile itself (%s): %s" % (host, variant, open(t, "rb").read()[-300:]))
    return cached("boot", "%s-by-%s-%s" % (variant, host, _h(source_key(), *(VARIANTS[variant] + VARIANTS[host]))), make)


def together(jobs):
    """Results of the build jobs, run at once; None where a build failed with BuildError."""
    from concurrent.futures import ThreadPoolExecutor
    def go(j):
        try:
            return j()
        except (BuildError, OSError):
            return None
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(go, jobs))


def prune(keep=6):
    """Bounds the disk the cache takes: drops the oldest products."""
    for kind, n in (("pnut", 60), ("boot", 40), ("sim", 10)):
        d = os.path.join(OUT, kind)
        if os.path.isdir(d):
            fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
            for _, f in fs[:-n]:
                try:
                    os.unlink(os.path.join(d, f))
                except OSError:
                    pass


if __name__ == "__main__":
    x86sim(), ptsim()
    print(sum(x is not None for x in together([lambda v=v: pnut(v) for v in VARIANTS] + [lambda k=k, v=v: pnut(v, kind=k) for k in BUILDS for v in ("sh", "sh-fast", "i386", "x64", "mac")])), "builds")
