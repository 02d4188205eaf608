"""Checks of the compiler itself: C11-C16. The host-built pnut runs as a process
of the process simulator (planned failures of its reads, writes and opens);
pnut compiled by pnut runs in the machine simulator under the simulated kernel,
or in the real shells."""
import collections, os, re
import build, gen, harness, kernel as K, machine, minic, proc, srcgen
from c_native import TARGETS, diff
from gen import I32MAX
from harness import Check, Discard, Outcome

EXE = ("i386", "x64", "mac")
VARS = ("sh", "sh-fast", "sh-rel", "sh-plain", "sh-compact", "i386", "x64", "mac", "i386-rel", "x64-rel", "mac-rel", "sh-inc-c", "sh-safe", "i386-safe")


def is_sh(v):
    return v.startswith("sh")


class Comp(Check):
    technique = "seeded runs of the real compiler in a process simulator and, compiled by itself, in a machine and kernel simulator, with planned failures of its reads, writes, opens and memory, compared with fault-free reference runs"
    note = "Exploration: seeded sampling of sources, compiler builds, delivery schedules and fault plans; every run repeatable from its case file. Trusts the host C compiler, the process simulator and the x86 interpreter."
    simtime = "simulated_steps counts system calls of simulated processes and instructions of simulated machines; the simulated systems have no clock"
    distinct_by = "hash of (build, sequence of calls on simulated files, exit status, output)"
    components = {"real": "pnut (every backend, host builds and builds by itself), the C library of the host build",
                  "stub": "kernel and processor of self-compiled builds (simulators), order, size and failure of file operations of host builds (process simulator)"}
    assumptions = ["the host C compiler compiles pnut correctly", "sim/x86sim.cpp executes the instructions pnut emits as the processor does"]
    vars = VARS
    budget = 55

    def prepare(self):
        build.ptsim()
        build.x86sim()
        build.together([lambda v=v: build.pnut(v) for v in self.vars])
        self.exe = {v: build.pnut(v) for v in self.vars}
        self.extra()

    def extra(self):
        pass

    def host(self, variant, case, exe=None, faults=(), **kw):
        """The host build on the case's files; args from case."""
        return proc.run(exe or self.exe[variant], case["args"], files=case["files"], faults=[tuple(f) for f in faults], collect=None, log=kw.pop("log", 1), cpu=kw.pop("cpu", 10),
                        modes=case.get("modes", {}), argv0="pnut", **kw)

    def boot(self, hostt, variant, case, plan=(), poison=0xA5, limit=1500_000_000, **kw):
        """The build of variant made by pnut for hostt, in the machine simulator. -> (Result, Kernel)"""
        k = K.Kernel(case["files"], b"", [dict(p) for p in plan], None, case.get("modes", {}), hostt == "mac", norm=True)
        r = machine.run(open(self.boots[hostt, variant], "rb").read(), hostt, k, argv=["pnut"] + list(case["args"]), limit=limit, poison=poison, **kw)
        return r, k

    def src(self, c, variant, invalid=0, size=None):
        s, valid = srcgen.source(c, is_sh(variant), invalid, size, variant.startswith(("x64", "mac")))
        return s.encode("latin1", "replace")

    def describe(self, case):
        f = "\n".join("--- %s\n%s" % (n, d.decode("latin1") if isinstance(d, bytes) else d) for n, d in sorted(case["files"].items()))
        return "%s args=%r plan=%r\n%s" % (case["variant"], case["args"], case.get("plan"), f)


def tally(counts, plan, r):
    for i, used in r.faults:
        if used:
            f = plan[i]
            counts["fault: %s %s" % (f[0], "short" if f[3] == "s" else K.ERRNAME.get(f[4], f[4]))] += used


WERR = [K.ENOSPC, K.EIO, K.EFBIG, K.EDQUOT, K.EINTR, K.EAGAIN, K.EBADF]
OERR = [K.EACCES, K.ENOSPC, K.EMFILE, K.EIO, K.EROFS, K.ENOENT, K.EINTR]
RERR = [K.EIO, K.EINTR, K.EISDIR, K.EBADF, K.EAGAIN, K.ENOMEM]


class C11(Comp):
    id = "C11"
    rule = "a case is a source, a compiler build (host, or by pnut itself), an output (standard output, -o on a new, existing or read-only file) and failing, short or missing writes and opens placed on calls the fault-free run makes; non-trivial when a fault happened or the output was complete"

    def extra(self):
        self.boots = {(h, v): build.boot(v, h) for h in EXE for v in EXE + ("sh",)}

    def make(self, c, tier):
        own = c(4) == 3
        hostt = EXE[c(3)]
        variant = EXE[c(3)] if own else self.vars[c(len(self.vars))]
        src = self.src(c, variant, 0, 2 + c(8) if own else None)
        case = dict(variant=variant, own=hostt if own else None, files={"p.c": src}, args=["p.c"], modes={}, plan=[], stdout="w", fsize=1 << 26)
        out = ".stdout"
        if not is_sh(variant) and c(3):
            out = "out.bin"
            case["args"] = [["p.c", "-o", out], ["-o", out, "p.c"], ["p.c", "-o" + out]][c(3)]
            k = c(5)
            if k == 0:
                case["files"][out] = b"\x90old" * (1 + c(30000))
            elif k == 1:
                case["files"][out] = b"old"
                case["modes"][out] = 0o444
            elif k == 2 and c(3) == 2:
                out = "nodir/out.bin"
                case["args"] = [a.replace("out.bin", out) for a in case["args"]]
        case["out"] = out
        base = self.base(case)
        if base is None:
            raise Discard("the source is rejected")
        case["want"] = base[0]
        n = base[1]
        k = c(6)
        if k == 0:
            pass
        elif k == 1 and not own and n:
            case["fsize"] = 1 + c(max(len(base[0]), 1) + 2)
        else:
            for _ in range(1 + c(2)):
                if out != ".stdout" and c(5) == 4:
                    case["plan"].append(["open", out, 0, "e", OERR[c(len(OERR))]])
                elif n:
                    i = [c(n), n - 1 - c(min(n, 3)), c(min(n, 4))][c(3)]
                    if c(4):
                        case["plan"].append(["write", out, i if c(2) else -1 - i, "e", WERR[c(len(WERR))]])
                    else:
                        case["plan"].append(["write", out, i if c(2) else -1 - i, "s", 1 + c(9)])
        if not own and out == ".stdout" and c(12) == 11:
            case["stdout"] = "close"
        case["seed"] = 1 + c(1000)
        return case

    def base(self, case):
        """The complete output, and how many writes deliver it."""
        free = dict(case, args=["p.c"])
        r = self.host(case["variant"], free, seed=1)
        if r.kind != "exit" or r.code != 0:
            return None
        n = sum(1 for x in r.calls if x[0] == "write" and x[1] == ".stdout")
        return r.out, n

    def run(self, case):
        return self.run_own(case) if case["own"] else self.run_host(case)

    def run_host(self, case):
        desc = self.describe(case)
        r = self.host(case["variant"], case, faults=case["plan"], seed=case["seed"], stdout_kind=case["stdout"], fsize=case["fsize"])
        counts = collections.Counter({"build: " + case["variant"]: 1, "system calls": r.ncalls})
        tally(counts, case["plan"], r)
        if case["fsize"] < 1 << 26:
            counts["fault: file size limit"] += 1
        if case["stdout"] == "close":
            counts["fault: standard output closed"] += 1
        if r.kind == "limit":
            return Outcome(None, "", False, dict(counts, **{"over the simulator's limits": 1}), r.ncalls, desc)
        got = r.out if case["out"] == ".stdout" else r.files.get(case["out"], b"")
        failed = any(case["plan"][i][3] == "e" and u for i, u in r.faults)
        could = not case["plan"] and case["fsize"] == 1 << 26 and case["stdout"] == "w" and not case["out"].startswith("nodir") and case["modes"].get(case["out"]) is None
        v = self.verdict(case, r.kind == "exit" and r.code == 0, got, could, failed, "host build of " + case["variant"], r.kind, r.code)
        return Outcome(v, (case["variant"], r.calls[-200:], r.code, case["plan"]), True, counts, r.ncalls, desc)

    def verdict(self, case, ok, got, could, failed, who, kind, code):
        if ok and got != case["want"]:
            return ["incomplete-success", "%s ended with status 0 but %s holds %d bytes instead of %d; first difference at %d: %r, expected %r" %
                    ((who, case["out"], len(got), len(case["want"])) + diff(got, case["want"]))]
        if ok and failed and all(f[0] == "open" and f[1] == case["out"] for f in case["plan"]):
            return ["incomplete-success", "%s ended with status 0 although the output could not be opened" % who]
        if not ok and could:
            return ["spurious-failure", "%s failed (%s %s) although nothing was wrong with its output" % (who, kind, code)]
        return None

    def run_own(self, case):
        desc = "by pnut for %s: " % case["own"] + self.describe(case)
        plan = []
        out = "<stdout>" if case["out"] == ".stdout" else case["out"]
        for op, o, n, act, v in case["plan"]:
            # every write of a self-compiled pnut is one byte: a short write is none
            for j in ([n] if n >= 0 else range(-n - 1, len(case["want"]) + 5)):
                plan.append(dict(op=op, obj=out, n=j, do="err", errno=v) if act == "e" else dict(op=op, obj=out, n=j, do="short", k=0))
        r, k = self.boot(case["own"], case["variant"], case, plan)
        counts = collections.Counter({"build: %s by pnut for %s" % (case["variant"], case["own"]): 1, "system calls": len(k.hist)})
        for f, n in k.injected.items():
            counts["fault: self-compiled " + f] += n
        if r.kind not in ("exit", "fault"):
            return Outcome(None, "", False, dict(counts, **{"self-compiled: " + r.kind: 1}), r.icount, desc)
        got = bytes(k.stdout.data) if case["out"] == ".stdout" else k.snapshot().get(case["out"], b"")
        failed = bool(k.injected)
        could = not case["plan"] and not case["out"].startswith("nodir") and case["modes"].get(case["out"]) is None
        v = self.verdict(case, r.kind == "exit" and r.code == 0, got, could, failed, "pnut (%s) compiled by pnut for %s" % (case["variant"], case["own"]), r.kind, r.code)
        return Outcome(v, (case["own"], case["variant"], len(k.hist), r.code, case["plan"]), True, counts, r.icount, desc)


class Split:
    """src with stretches of whole lines moved to included files: .files {path: bytes},
    .main, .args, .depth (files open at once), .never (paths no run may open)."""

    def __init__(self, c, src, depth=2, extras=False):
        self.c, self.extras = c, extras
        self.files, self.never, self.depth, self.args = {}, [], 1, []
        self.search = None
        base = ["", "", "", "src/", "a/b c/"][c(5)] if extras else ""
        self.main = base + "p.c"
        if extras and c(3) == 2:
            self.search = ["inc/", "sys/include/", "./", "x y/"][c(4)]
            self.args = [["-I" + self.search], ["-I", self.search]][c(2)]
            for nm in re.findall(r"#\s*include\s*<([^>\n]*)>", src):
                self.files[os.path.normpath(self.search + nm)] = b""
        self.guards = 0
        self.files[self.main] = b""
        lines = src.rstrip("\n").split("\n")
        if extras and c(6) == 5:
            # a chain of files: each includes the next, the innermost has the program
            path, n = self.main, 5 + c(16)
            for i in range(n):
                p, what = self.name(os.path.dirname(path))
                self.files[p] = b""
                t = [["// %d" % i], [], ["#define CHAIN%d_ %d" % (i, i)]][c(3)] + [self.directive(what)] + [["// end %d" % i], [], ["#undef CHAIN%d_" % i]][c(3)]
                self.files[path] = ("\n".join(t) + ["\n", ""][c(2)]).encode("latin1")
                path = p
            self.files[path] = self.unit(lines, path, min(depth, 1), n + 1)
        else:
            self.files[self.main] = self.unit(lines, self.main, depth, 1)

    def name(self, base):
        """-> (path, directive operand)"""
        c = self.c
        nm = "h%d%s.h" % (len(self.files), ["", "", "", "", "\xe9", "\xc3\xa9", "\xff", "-", " x", ".c"][c(10)])
        if self.search and c(3) == 2:
            nm = nm if nm.isascii() else "h%d.h" % len(self.files)      # the operand may be in text that is skipped
            sub = ["", "k/"][c(2)]
            return os.path.normpath(self.search + sub + nm), "<%s%s>" % (sub, nm)
        sub = ["", "", "inc/", "d/e/", "x y/"][c(5)]
        if sub and c(4) == 3 and base:
            sub = "../" * (base.count("/") + 1) + "up/" * c(2)
        return os.path.normpath(os.path.join(base, sub + nm)), '"%s%s"' % (sub, nm)

    def directive(self, what):
        return ["#include %s", "# include %s", "  #include   %s", "#include %s // c", "#include %s/* c */", "#include %s ", "#\tinclude\t%s\t// \"x\"", "#include %s /* c\n c */"][self.c(8)] % what

    def unit(self, lines, path, d, level):
        c = self.c
        self.depth = max(self.depth, level)
        base = os.path.dirname(path)
        out, i = [], 0
        safe = safe_cuts(lines)
        spans = []
        if d > 0:
            for _ in range(1 + c(3)):
                a, blk = safe[c(len(safe))]
                ends = [x for x, y in safe if y == blk and x >= a]
                b = ends[c(len(ends))]
                if b > a or self.extras:
                    spans.append((a, b))
        for a, b in sorted(spans):
            if a < i:
                continue
            out += lines[i:a]
            p, what = self.name(base)
            self.files[p] = b""                    # reserves the name
            self.files[p] = self.unit(lines[a:b], p, d - 1, level + 1)
            if self.extras and c(4) == 3:
                out += [["#if 1", "#ifndef NOT_DEFINED_", "#if 0\n#else", "#if defined(NOT_DEFINED_) || 2 > 1"][c(4)], self.directive(what), "#endif"]
            else:
                out.append(self.directive(what))
            i = b
        out += lines[i:]
        if self.extras:
            safe = safe_cuts(out)
            ins = []
            for _ in range(c(3)):
                at, blk = safe[c(len(safe))]
                k = c(3)
                p, what = self.name(base)
                if k == 0:                         # an inactive include of a file that may exist
                    self.never.append(p)
                    if c(2):
                        self.files[p] = b"nonsense ( here\n#error no\n"
                    else:
                        self.files[p] = None
                    t = [["#if 0", "#ifdef NOT_DEFINED_", "#if 1\n#else", "#if 0\n#if 1", "#if 0\n#elif 0", "#if 1\n#elif 1"][c(6)], self.directive(what), "#endif"]
                    if t[0] == "#if 0\n#if 1":
                        t.append("#endif")
                elif k == 1:                       # an empty file, or one of comments, maybe several times
                    self.files[p] = [b"", b"\n", b"// c", b"/* c */", b"\n\n \n", b"#if 0\n#endif", b"#define Q%d_ 1\n#undef Q%d_" % (at, at)][c(7)]
                    self.depth = max(self.depth, level + 1)
                    t = [self.directive(what)] * (1 + c(4))
                else:                              # a guarded file, several times
                    g = "GUARD%d_" % len(self.files)
                    self.files[p] = ("#ifndef %s\n#define %s\n%s\n#endif%s" % (g, g, "/* %d */" % c(9), ["", "\n", " // " + g][c(3)])).encode()
                    self.depth = max(self.depth, level + 1)
                    t = [self.directive(what)] * (2 + c(3))
                ins.append((at, t))
            for at, t in sorted(ins, key=lambda x: x[0], reverse=True):
                out[at:at] = t
        t = "\n".join(out)
        if c(3):
            t += "\n"
        return t.encode("latin1", "replace")


def split(c, src, depth=2):
    return Split(c, src, depth).files


def safe_cuts(lines):
    """[(line number, block)]: where a cut is between whole lines, outside comments
    and continuations; cuts of the same block are in the same branch of the same conditionals."""
    safe, incom, cont, stack, n = [], False, False, [0], 0
    for i, l in enumerate(lines + [""]):
        if not incom and not cont:
            safe.append((i, stack[-1]))
        s = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', "0", l) if not incom else l
        j = 0
        was = incom or cont
        while True:
            if incom:
                k = s.find("*/", j)
                if k < 0:
                    break
                incom, j = False, k + 2
            else:
                k, m = s.find("/*", j), s.find("//", j)
                if k < 0 or 0 <= m < k:
                    break
                incom, j = True, k + 2
        if not was:
            w = l.strip()
            if re.match(r"#\s*if", w):
                n += 1
                stack.append(n)
            elif re.match(r"#\s*(else|elif)", w) and len(stack) > 1:
                n += 1
                stack[-1] = n
            elif re.match(r"#\s*endif", w) and len(stack) > 1:
                stack.pop()
        cont = l.endswith("\\")
    return safe


class C12(Comp):
    id = "C12"
    rule = "a case is a source spread over files, a compiler build (host, or by pnut itself) and short, failing or interrupted reads, failing opens, missing, unreadable or directory files placed on calls the fault-free run makes; non-trivial when a fault happened"

    def extra(self):
        self.boots = {(h, v): build.boot(v, h) for h in EXE for v in EXE + ("sh",)}

    def make(self, c, tier):
        own = c(5) == 4
        hostt = EXE[c(3)]
        variant = (EXE + ("sh",))[c(4)] if own else self.vars[c(len(self.vars))]
        src = self.src(c, variant, 0, 2 + c(8) if own else None).decode("latin1")
        files = split(c, src, 2) if c(4) else {"p.c": src.encode("latin1")}
        case = dict(variant=variant, own=hostt if own else None, files=files, args=["p.c"], modes={}, plan=[], seed=1 + c(1000), bad=None)
        if is_sh(variant) and c(3) == 2:
            case["files"]["inc.sh"] = b"# shell part\nfoo() { :; }\n" * (1 + c(300))
            case["files"]["p.c"] = b'#include_shell "inc.sh"\n' + case["files"]["p.c"]
        r = self.host(variant, case, seed=1)
        if r.kind != "exit" or r.code != 0:
            raise Discard("the source is rejected")
        case["want"] = r.out
        if c(3) == 2 and variant != "sh-inc-c" and "__LINE__" not in src:
            # a comment of arbitrary bytes changes nothing
            f = [n for n in sorted(files) if n != "inc.sh"]
            f = f[c(len(f))]
            L = files[f].decode("latin1").split("\n")
            cuts = safe_cuts(L)
            L.insert(cuts[c(len(cuts))][0], ["/* %s */", "// %s"][c(2)] % srcgen.odd_bytes(c))
            files[f] = "\n".join(L).encode("latin1")
            r = self.host(variant, case, seed=1)
            if c(4) == 3 or r.kind != "exit" or r.code != 0:
                return case
        names = sorted({x[1] for x in r.calls if x[0] == "open" and x[1] in case["files"]})
        if not names:
            raise Discard("no source file is opened")
        reads = [x for x in r.calls if x[0] == "read" and x[1] in case["files"]]
        opens = [x for x in r.calls if x[0] == "open" and x[1] in case["files"]]
        k = c(8)
        f = names[c(len(names))]
        if k == 0:
            case["bad"] = ["missing", f]
            d = case["files"].pop(f)
            # a file of its name where it is not asked for
            w = f.split("/")
            for i in range(1, len(w)):
                if c(3):
                    case["files"].setdefault("/".join(w[i:]), d)
        elif k == 1 and not own:
            case["bad"] = ["unreadable", f]
            case["modes"][f] = 0
        elif k == 2 and not own:
            case["bad"] = ["directory", f]
            del case["files"][f]
            case["files"][f + "/x"] = b""
        elif k == 3:
            x = opens[c(len(opens))]
            case["plan"].append(["open", x[1], x[2] if c(2) else -1 - x[2], "e", OERR[c(len(OERR))]])
        else:
            for _ in range(1 + c(3)):
                x = reads[c(len(reads))]
                # with short reads the calls are as many as the bytes
                size = len(case["files"][x[1]])
                j = c(4)
                if j == 0:
                    case["plan"].append(["read", x[1], -1, "s", 1 + c(9)])
                    n = c(size // 4 + 2)
                elif j == 1:
                    case["plan"].append(["read", x[1], x[2], "s", 1 + c(size + 1)])
                    n = x[2] + c(3)
                else:
                    n = x[2]
                if c(3) and not own:
                    case["plan"].append(["read", x[1], n if c(2) else -1 - n, "e", RERR[c(len(RERR))]])
        return case

    def run(self, case):
        return self.run_own(case) if case["own"] else self.run_host(case)

    def run_host(self, case):
        desc = "bad=%r " % (case["bad"],) + self.describe(case)
        # failures first: of two rules for a call the first one counts
        plan = sorted(case["plan"], key=lambda f: f[3] != "e")
        r = self.host(case["variant"], case, faults=plan, seed=case["seed"])
        counts = collections.Counter({"build: " + case["variant"]: 1, "system calls": r.ncalls})
        tally(counts, plan, r)
        if case["bad"]:
            counts["fault: source " + case["bad"][0]] += 1
        if r.kind == "limit":
            return Outcome(None, "", False, dict(counts, **{"over the simulator's limits": 1}), r.ncalls, desc)
        failed = [plan[i] for i, u in r.faults if plan[i][3] == "e" and u]
        v = self.verdict(case, r.kind == "exit" and r.code == 0, r.out, failed, "host build of " + case["variant"], r.kind, r.code)
        return Outcome(v, (case["variant"], r.calls[-200:], r.code, case["bad"]), bool(r.faults or case["bad"]), counts, r.ncalls, desc)

    def verdict(self, case, ok, got, failed, who, kind, code):
        if ok and got != case["want"]:
            return ["partial-success", "%s ended with status 0 (faults: %s) but its output differs at byte %d: %r, expected %r" % ((who, case["bad"] or failed or case["plan"]) + diff(got, case["want"]))]
        if ok and (case["bad"] or failed):
            # a failed call that was tried again with success lost nothing
            if case["bad"] or any(f[2] < 0 for f in failed) or not failed:
                return ["partial-success", "%s ended with status 0 although %s" % (who, case["bad"] or failed)]
        if not ok and not case["bad"] and not failed:
            return ["spurious-failure", "%s failed (%s %s) although every byte of its input was delivered" % (who, kind, code)]
        return None

    def run_own(self, case):
        desc = "by pnut for %s: bad=%r " % (case["own"], case["bad"]) + self.describe(case)
        plan = [dict(op=f[0], obj=f[1], n=f[2] if f[2] >= 0 else -f[2] - 1, do="err", errno=f[4]) for f in case["plan"] if f[3] == "e"]
        r, k = self.boot(case["own"], case["variant"], case, plan)
        counts = collections.Counter({"build: %s by pnut for %s" % (case["variant"], case["own"]): 1, "system calls": len(k.hist)})
        for f, n in k.injected.items():
            counts["fault: self-compiled " + f] += n
        if case["bad"]:
            counts["fault: self-compiled source " + case["bad"][0]] += 1
        if r.kind not in ("exit", "fault"):
            return Outcome(None, "", False, dict(counts, **{"self-compiled: " + r.kind: 1}), r.icount, desc)
        failed = [case["plan"][0]] if k.injected else []
        v = self.verdict(case, r.kind == "exit" and r.code == 0, bytes(k.stdout.data), failed, "pnut (%s) compiled by pnut for %s" % (case["variant"], case["own"]), r.kind, r.code)
        return Outcome(v, (case["own"], case["variant"], [h[:2] for h in k.hist if h[0] in ("open", "close")], r.code, case["bad"]), bool(k.injected or case["bad"]), counts, r.icount, desc)


LEGACY_LAYOUT = 0x0200000               # mmap upwards from below, the stack apart
MSAN = {"MSAN_OPTIONS": "exit_code=97:halt_on_error=1:symbolize=0"}
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=97:symbolize=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0"}


class C13(Comp):
    id = "C13"
    rule = "a case is a source, valid or not, its options, and two to four runs under other conditions: environment, contents of fresh memory, memory layout, inherited descriptors, chunking of reads and writes, host compilers and checkers of uninitialised and out-of-bounds accesses, self-compiled builds with other stack and heap placement and contents; non-trivial when at least one run besides the first ended"
    vars = ("sh", "sh-fast", "sh-rel", "sh-plain", "sh-compact", "i386", "x64", "mac", "i386-rel", "x64-rel", "sh-inc-c", "sh-safe")
    builds = ("sh", "sh-fast", "i386", "x64", "mac", "sh-rel", "i386-rel", "sh-inc-c")

    def extra(self):
        ks = [(k, v) for k in build.BUILDS for v in self.builds]
        self.alt = {kv: p for kv, p in zip(ks, build.together([lambda k=k, v=v: build.pnut(v, kind=k) for k, v in ks])) if p}
        self.boots = {(h, v): build.boot(v, h) for h in EXE for v in EXE + ("sh",)}

    def make(self, c, tier):
        own = c(4) == 3
        variant = (EXE + ("sh",))[c(4)] if own else self.vars[c(len(self.vars))]
        s = self.src(c, variant, 2, 2 + c(8) if own else None)
        files = split(c, s.decode("latin1"), 2) if c(3) == 2 else {"p.c": s}
        args = ["p.c"]
        for _ in range(c(3)):
            args.insert(c(len(args) + 1), ["-DX%d" % c(3), "-DX1=%d" % c(9), "-DA=(1+2)", "-Iinc/", "-UZ"][c(5)])
        case = dict(variant=variant, own=EXE[c(3)] if own else None, files=files, args=args, modes={}, conds=[])
        for _ in range(2 + c(3)):
            if own:
                w = 8 if case["own"] != "i386" else 4
                case["conds"].append(dict(poison=[0, 0xff, 1 + c(254)][c(3)], stack=c(4096) * 16, top=c(3), mmap=c(4), env=c(3), reads=c(2), names=c(9)))
            else:
                k = c(4)
                d = dict(kind=None, env={}, fds=c(4), legacy=c(2), stdin=["file", "pipe", "close"][c(3)], faults=[], outkind=["w", "a", "rw"][c(3)], argv0=["pnut", "/x/y/pnut", "p" * 300][c(3)], cwd=c(2))
                if k == 0:
                    d["kind"] = list(build.BUILDS)[c(len(build.BUILDS))]
                for _ in range(c(5)):
                    n, v = [("MALLOC_PERTURB_", str(1 + c(255))), ("MALLOC_TOP_PAD_", str(c(1 << 20))), ("MALLOC_MMAP_THRESHOLD_", "4096"), ("MALLOC_ARENA_TEST", "1"), ("LANG", "tr_TR.UTF-8"),
                            ("LC_ALL", "en_US.UTF-8"), ("PAD", "x" * c(60000)), ("HOME", "/nonexistent"), ("TZ", "Asia/Tokyo"), ("PNUT", "1"), ("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0"),
                            ("C_INCLUDE_PATH", "inc"), ("CPATH", "inc"), ("POSIXLY_CORRECT", "1"), ("SOURCE_DATE_EPOCH", "1")][c(15)]
                    d["env"][n] = v
                for f in sorted(files) + [".stdout"]:
                    if c(4) == 3:
                        d["faults"].append(["write" if f == ".stdout" else "read", f, -1, "s", 1 + c(50)])
                case["conds"].append(d)
        return case

    def run(self, case):
        return self.run_own(case) if case["own"] else self.run_host(case)

    def run_host(self, case):
        desc = "conds=%r " % (case["conds"],) + self.describe(case)
        v0 = case["variant"]
        base = self.host(v0, case, seed=1, cpu=4)
        counts = collections.Counter({"build: " + v0: 1, "system calls": base.ncalls})
        if base.kind == "limit":
            return Outcome(None, "", False, dict(counts, **{"over the simulator's limits": 1}), base.ncalls, desc)
        counts["probe: accepted" if (base.kind, base.code) == ("exit", 0) else "probe: rejected" if base.kind == "exit" else "probe: crashed"] += 1
        viol, steps, ran = None, base.ncalls, 0
        for d in case["conds"]:
            exe = None
            env = dict(proc.ENV)
            env.update(d["env"])
            if d["kind"]:
                exe = self.alt.get((d["kind"], v0))
                if exe is None:
                    continue
                env.update(ASAN if d["kind"] == "asan" else MSAN if d["kind"] == "msan" else {})
            fds = [(20 + 7 * i, "r", ".stdin") for i in range(d["fds"])] if d["stdin"] == "file" else []
            r = self.host(v0, case, exe=exe, faults=d["faults"], seed=1, cpu=10, env=env, extra_fds=fds, stdin_kind=d["stdin"], stdout_kind=d["outkind"], stdin=b"int x;\n",
                          persona=LEGACY_LAYOUT if d["legacy"] and d["kind"] not in ("asan", "msan") else 0)
            steps += r.ncalls
            tally(counts, d["faults"], r)
            counts["probe: " + (d["kind"] or "same build, other conditions")] += 1
            for n in d["env"]:
                counts["fault: environment " + n] += 1
            if r.kind == "limit":
                continue
            ran += 1
            if (r.kind, r.code) == ("exit", 97) and d["kind"] in ("asan", "msan"):
                m = re.search(rb"ERROR: AddressSanitizer: (\S+)|WARNING: MemorySanitizer: (\S+)", r.err)
                viol = ["memory-error", "%s: the %s build reports %s" % (v0, d["kind"], (m.group(1) or m.group(2)).decode() if m else r.err[-200:].decode("latin1"))]
                break
            if base.kind == "signal" and d["kind"] and r.kind != "exit":
                continue                    # how a crash ends is not part of the output
            if (r.kind, r.code) != (base.kind, base.code):
                viol = ["status-differs", "%s: ended with %s %s, under %s with %s %s" % (v0, base.kind, base.code, self.cond(d), r.kind, r.code)]
                break
            if r.out != base.out and base.kind == "exit":
                viol = ["output-differs", "%s: under %s the output differs at byte %d: %r, first %r" % ((v0, self.cond(d)) + diff(r.out, base.out))]
                break
            if r.files != base.files:
                viol = ["output-differs", "%s: under %s the files left differ" % (v0, self.cond(d))]
                break
        return Outcome(viol, (v0, harness.digest(base.out), [self.cond(d) for d in case["conds"]]), ran > 0, counts, steps, desc)

    def cond(self, d):
        return "build %s, environment %s, %s descriptors, %s layout, short calls %s" % (d["kind"] or "same", sorted(d["env"]), d["fds"], "legacy" if d["legacy"] else "usual", [f[:2] for f in d["faults"]])

    def run_own(self, case):
        desc = "by pnut for %s: conds=%r " % (case["own"], case["conds"]) + self.describe(case)
        who = "pnut (%s) compiled by pnut for %s" % (case["variant"], case["own"])
        r0, k0 = self.boot(case["own"], case["variant"], case, limit=300_000_000)
        counts = collections.Counter({"build: %s by pnut for %s" % (case["variant"], case["own"]): 1, "system calls": len(k0.hist)})
        if r0.kind not in ("exit", "fault"):
            return Outcome(None, "", False, dict(counts, **{"self-compiled: " + r0.kind: 1}), r0.icount, desc)
        counts["probe: accepted" if (r0.kind, r0.code) == ("exit", 0) else "probe: rejected" if r0.kind == "exit" else "probe: crashed"] += 1
        viol, steps, ran = None, r0.icount, 0
        for d in case["conds"]:
            top = 0xC0000000 if case["own"] == "i386" else 0x7fffffff0000
            kw = dict(stack_top=top - d["stack"] - (d["top"] << 24))
            if d["mmap"]:
                b = 0x60000000 if case["own"] == "i386" else 0x7f0000000000 - (d["mmap"] << 34)
                kw["mmap"] = [b - i * 0x10000000 for i in range(4)]
            plan = []
            r, k = self.boot(case["own"], case["variant"], case, poison=d["poison"], limit=600_000_000, env=["E%d=%s" % (i, "x" * 100 * i) for i in range(d["env"] * d["names"])], **kw)
            steps += r.icount
            counts["probe: self-compiled under other memory"] += 1
            if r.kind not in ("exit", "fault"):
                continue
            ran += 1
            if (r.kind, r.code) != (r0.kind, r0.code):
                viol = ["status-differs", "%s: ended with %s %s, with memory %r with %s %s %s" % (who, r0.kind, r0.code, d, r.kind, r.code, r.detail)]
                break
            if r0.kind == "exit" and k.stdout.data != k0.stdout.data:
                viol = ["output-differs", "%s: with memory %r the output differs at byte %d: %r, first %r" % ((who, d) + diff(bytes(k.stdout.data), bytes(k0.stdout.data)))]
                break
        return Outcome(viol, (case["own"], case["variant"], harness.digest(bytes(k0.stdout.data)), case["conds"]), ran > 0, counts, steps, desc)


def big_literal(s):
    return any(int(x.lower().rstrip("ul"), 0 if not re.match("0[0-7]", x) else 8) > I32MAX for x in re.findall(r"\b(?:0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)[uUlL]*\b", s))


class C14(Comp):
    id = "C14"
    rule = "a case is a source, valid or not, spread over files, a compiler build made by pnut (for a machine, run by the machine simulator, or for a shell, run by one) and a chunking of its reads; the host build of the same compiler is the reference; non-trivial when both ended"
    vars = EXE + ("sh", "sh-fast")
    hosts = EXE + ("sh-fast", "sh-rel")
    shells = ("ksh", "dash", "bash", "yash")

    def extra(self):
        pairs = [(h, v) for h in self.hosts for v in self.vars]
        for h in self.hosts:
            build.pnut(h)
        self.boots = dict(zip(pairs, build.together([lambda h=h, v=v: build.boot(v, h) for h, v in pairs])))
        for k in [k for k in self.boots if self.boots[k] is None]:
            build.boot(k[1], k[0])            # reports why

    def make(self, c, tier):
        hostt = self.hosts[(0, 1, 2, 0, 1, 2, 0, 1, 2, 3, 4)[c(11)]]
        variant = self.vars[c(len(self.vars))]
        case = dict(variant=variant, host=hostt, args=["p.c"], modes={}, plan=[], seed=1 + c(1000), itself=None)
        if not is_sh(hostt) and c(90) == 89:
            # the compiler itself, with the options of one of its builds
            case["itself"] = self.vars[c(len(self.vars))]
            case["files"] = dict(build.sources())
            case["args"] = build.VARIANTS[case["itself"]] + ["pnut.c"]
            case["plan"] = []
            return case
        s = self.src(c, variant, 3, (2 + c(3)) if is_sh(hostt) else (2 + c(12)))
        case["files"] = split(c, s.decode("latin1"), 2) if c(3) == 2 else {"p.c": s}
        if is_sh(hostt):
            # known finding C14-big-constant: constant expressions are computed in the integers of the shell
            if big_literal(s.decode("latin1")) and (is_sh(variant) or variant.startswith("i386")):
                raise Discard("a large literal for a compiler run by a shell")
            if sum(len(x) for x in case["files"].values()) > 4000:
                raise Discard("a long source for a compiler run by a shell")
            case["shell"] = self.shells[(0, 1, 0, 1, 2, 3)[c(6)]]
            if case["shell"] == "yash" and not all(n.isascii() and d.isascii() for n, d in case["files"].items()):
                case["shell"] = "bash"             # yash reads characters of the locale
            for f in sorted(case["files"]):
                if c(3) == 2:
                    case["plan"].append(["read", f, -1, "s", 1 + c(20)])
        else:
            case["poison"] = c(256)
            for f in sorted(case["files"]):
                for _ in range(c(3)):
                    case["plan"].append(dict(op="read", obj=f, n=c(len(case["files"][f]) // 100 + 3), do="short", k=1 + c(200)))
        return case

    def run(self, case):
        v, h = case["variant"], case["host"]
        desc = "by pnut for %s %s: " % (h, case.get("shell", "")) + self.describe(dict(case, files={}) if case["itself"] else case)
        b = self.host(v, case, seed=1, cpu=20)
        counts = collections.Counter({"build: %s by pnut for %s" % (v, h) + (" run by " + case["shell"] if "shell" in case else ""): 1})
        if case["itself"]:
            counts["probe: compiles itself"] += 1
        if is_sh(h):
            files = dict(case["files"])
            files["pnut.sh"] = open(self.boots[h, v], "rb").read()
            r = proc.run(proc.SHELLS[case["shell"]], ["pnut.sh"] + case["args"], files=files, faults=[tuple(f) for f in case["plan"]], seed=case["seed"], cpu=60, log=0, syscap=5000000, argv0=case["shell"], collect=())
            kind, code, out, steps = r.kind, r.code, r.out, r.ncalls
            tally(counts, case["plan"], r)
        else:
            r, k = self.boot(h, v, case, case["plan"], poison=case.get("poison", 0), limit=4_000_000_000)
            kind, code, out, steps = r.kind, r.code, bytes(k.stdout.data), r.icount
            for f, n in k.injected.items():
                counts["fault: self-compiled " + f] += n
        if kind == "limit" or b.kind == "limit":
            return Outcome(None, "", False, dict(counts, **{"over the simulator's limits": 1}), steps, desc)
        viol = None
        okb, okr = (b.kind, b.code) == ("exit", 0), (kind, code) == ("exit", 0)
        counts["probe: accepted" if okb else "probe: rejected" if b.kind == "exit" else "probe: crashed"] += 1
        who = "pnut (%s) compiled by pnut for %s%s" % (v, h, " run by " + case["shell"] if "shell" in case else "")
        if okb != okr:
            viol = ["verdict-differs", "%s ended with %s %s, the host build with %s %s: %r" % (who, kind, code, b.kind, b.code, out[-200:])]
        elif okb and out != b.out:        # the wording of diagnostics may differ
            viol = ["output-differs", "%s: the output differs at byte %d: %r, by the host build %r" % ((who,) + diff(out, b.out))]
        return Outcome(viol, (v, h, case.get("shell"), harness.digest(out), case["plan"]), True, counts, steps, desc)


class C15(Comp):
    id = "C15"
    rule = "a case is a valid source, a split of it over included files (nested, in other directories, from a search path, in conditionals, guarded, empty, without final newline), inactive includes, a compiler build (host, or by pnut itself), a chunking of its reads and a tight descriptor limit; the unsplit source is the reference; non-trivial when some file is included"
    vars = tuple(v for v in VARS if v != "sh-inc-c")        # which shows the source as comments

    def extra(self):
        self.boots = {(h, v): build.boot(v, h) for h in EXE for v in EXE + ("sh",)}

    def make(self, c, tier):
        own = c(5) == 4
        variant = (EXE + ("sh",))[c(4)] if own else self.vars[c(len(self.vars))]
        src = self.src(c, variant, 0, 2 + c(10) if own else None).decode("latin1")
        if "__FILE__" in src or "__LINE__" in src:
            raise Discard("the source shows its own place")
        sp = Split(c, src, 1 + c(4), True)
        files = {n: d for n, d in sp.files.items() if d is not None}
        args = sp.args + [sp.main] if c(2) else [sp.main] + sp.args
        if sp.args:
            args = sp.args + [sp.main]
        case = dict(variant=variant, own=EXE[c(3)] if own else None, whole=src.encode("latin1"), files=files, args=args, never=[n for n in sp.never], modes={}, plan=[], nofile=3 + sp.depth + 1,
                    main=sp.main, poison=c(256))
        for f in sorted(files):
            if c(4) == 3:
                case["plan"].append(["read", f, -1, "s", 1 + c(60)])
        if len(files) > 45:
            raise Discard("too many files")
        return case

    def run(self, case):
        v = case["variant"]
        desc = ("by pnut for %s " % case["own"] if case["own"] else "") + self.describe(case)
        b = self.host(v, dict(files={"p.c": case["whole"]}, args=["p.c"]), seed=1)
        if (b.kind, b.code) != ("exit", 0):
            raise Discard("the source is rejected")
        counts = collections.Counter()
        if case["own"]:
            counts["build: %s by pnut for %s" % (v, case["own"])] += 1
            plan = [dict(op="read", obj=f[1], n=i, do="short", k=f[4]) for f in case["plan"] for i in range(len(case["files"][f[1]]) // max(f[4], 1) + 2)]
            r, k = self.boot(case["own"], v, case, plan, poison=case["poison"])
            kind, code, out, steps = r.kind, r.code, bytes(k.stdout.data), r.icount
            if kind not in ("exit", "fault"):
                return Outcome(None, "", False, dict(counts, **{"self-compiled: " + kind: 1}), steps, desc)
            for f, n in k.injected.items():
                counts["fault: self-compiled " + f] += n
            opened = [os.path.normpath(h[1]) for h in k.hist if h[0] == "open"]
            nclose = sum(1 for h in k.hist if h[0] == "close" and h[2] == 0)
            leak = None
            if kind == "exit" and code == 0 and nclose < len(opened) - 1:
                leak = "%d files were opened, %d closed" % (len(opened), nclose)
            who = "pnut (%s) compiled by pnut for %s" % (v, case["own"])
        else:
            counts["build: " + v] += 1
            r = self.host(v, case, faults=case["plan"], seed=1, nofile=case["nofile"])
            kind, code, out, steps = r.kind, r.code, r.out, r.ncalls
            if kind == "limit":
                return Outcome(None, "", False, dict(counts, **{"over the simulator's limits": 1}), steps, desc)
            tally(counts, case["plan"], r)
            opened = [os.path.normpath(x[1]) for x in r.calls if x[0] == "open"]
            leak = None
            who = "host build of " + v
        counts["probe: included files"] += len(opened)
        counts["fault: descriptor limit"] += 1
        viol = None
        bad = [n for n in opened if n in case["never"]]
        if bad:
            viol = ["inactive-opened", "%s opened %s, which only an inactive #include names" % (who, bad[0])]
        elif (kind, code) != ("exit", 0):
            viol = ["split-rejected", "%s accepts the program in one file but not over %d files: %s %s %r" % (who, len(case["files"]), kind, code, out[-200:])]
        elif out != b.out:
            viol = ["split-changes-output", "%s: the output for the split program differs at byte %d: %r, for one file %r" % ((who,) + diff(out, b.out))]
        elif leak:
            viol = ["files-not-closed", "%s: %s" % (who, leak)]
        return Outcome(viol, (v, case["own"], harness.digest(case["whole"]), opened), len(opened) > 1, counts, steps, desc)

    def describe(self, case):
        return Comp.describe(self, case) + "\n--- whole\n" + case["whole"].decode("latin1")
