"""Checks of the native backends: C01-C04 and C17. Every run is one process in
the machine simulator, its kernel simulated, its expected history computed by
the reference interpreter against the same simulated kernel and fault plan."""
import collections, os, subprocess
import build, gen, harness, iogen, kernel as K, machine, macroize, minic, plan as PL, wide
from gen import I32MAX
from harness import Check, Discard, Outcome

TARGETS = ("i386", "x64", "mac")
ERRORS_LIMIT = 30_000_000


def compile_src(exe, src, name="p.c", args=(), cpu=20):
    """Runs a host-built pnut on a source text; -> (status, output)."""
    d = harness.scratch()
    with open(os.path.join(d, name), "wb") as f:
        f.write(src if isinstance(src, bytes) else src.encode("latin1"))
    p = subprocess.Popen([exe, name] + list(args), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env={"PATH": "/usr/bin:/bin"}, preexec_fn=None)
    try:
        out = p.communicate(timeout=120)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        out = p.communicate()[0]
        return -99, out
    return p.returncode, out


def layout(c, target):
    """Where the system places things: stack and mmap addresses, stale stack bytes, environment."""
    m = {}
    if target == "i386":
        m["stack_top"] = [0xbfffe000, 0xffffd000, 0x7fffe000, 0x80002000, 0][c(5)] or 0x80000040 + 16 * c(100)     # across the sign boundary
        m["mmap"] = [[], [0xf7f00000, 0xf0000000], [0x40000000, 0x7d000000], [0x90000000, 0x90800000], [0x20000000, 0x1000000], [0xf0000000, 0xf8000000]][c(6)]
    elif target == "x64":
        m["stack_top"] = [0x7ffffffde000, 0x7ffc00001000, 0x7fffe000][c(3)]
        m["mmap"] = [[], [0x7fffe0000000, 0x7fff80000000], [0x10000000, 0x7ffff000], [0x555555554000, 0x7f0000000000], [0x80000000, 0x100000000]][c(5)]
    else:
        m["stack_top"] = [0x7ff7bfeff000, 0x7ffee0000000][c(2)]
        m["mmap"] = [[], [0x101000000, 0x110000000], [0x7f8000000000, 0x180000000], [0x600000000000, 0x7f0000000000]][c(4)]
    m["poison"] = [0xA5, 0, 0xFF, 0x01][c(4)]
    env = []
    for _ in range(c(4)):
        env.append(["A=1", "PATH=/bin", "EMPTY=", "X=" + "y" * 300, "", "=odd", "LC_ALL=C"][c(7)])
    m["env"] = env
    return m


class Native(Check):
    technique = "seeded runs of pnut-generated executables in a machine and kernel simulator, history checked against a reference interpreter"
    note = "Exploration: seeded sampling of programs, memory placements and fault plans, every run exactly repeatable. Trusts the x86 interpreter, the reference interpreter and the host C compiler that builds pnut; programs outside the generator's grammar are not covered."
    strict = False          # compare the full history of requests
    prog = None
    nfaults = 3
    simtime = "simulated_steps counts executed instructions of the generated programs; the simulated system has no clock"
    distinct_by = "hash of (target, sequence of system calls with results, exit)"
    components = {"real": "pnut compiler (host build of the current tree), the machine code, loader headers and run-time it generates",
                  "stub": "processor (x86 interpreter), kernel (files, descriptors, streams, mmap, exit), reference interpreter as oracle"}
    assumptions = ["sim/x86sim.cpp executes the instructions pnut emits as the processor does", "lib/minic.py gives the meaning of the generated C programs",
                   "the host C compiler compiles pnut correctly"]

    def prepare(self):
        build.x86sim()
        self.exe = {}
        for t in TARGETS:
            self.exe[t] = build.pnut(t)

    # -- parts a property overrides
    def draw(self, c, tier, target):
        """-> dict with prog, files, modes, stdin, argv, plan, ops"""
        raise NotImplementedError

    def interp(self, P, target, env, plan):
        k = K.Kernel(env["files"], env["stdin"], plan, None, env["modes"], target == "mac")
        it = minic.Interp(P, "i386" if target == "i386" else "x64", k, argv=env["argv"], limit=env.get("limit", 20000))
        if env.get("heap"):
            it.heap_limit = env["heap"]
        res = it.run()
        return k, res, it

    def make(self, c, tier):
        target = TARGETS[c(3)]
        lay = layout(c, target)
        env = self.draw(c, tier, target)
        P = env["prog"]
        plan = list(env.get("plan", []))
        try:
            k, res, it = self.interp(P, target, env, plan)
        except minic.UB as e:
            raise Discard("undefined: " + str(e)[:40])
        for _ in range(c(self.nfaults + 1) if self.nfaults else 0):
            p2 = plan + []
            if not PL.add_fault(c, k.calls, p2, env.get("ops")):
                break
            try:
                k2, res2, it2 = self.interp(P, target, env, p2)
            except minic.UB:
                continue
            plan, k, res, it = p2, k2, res2, it2
        style = gen.Choices(replay=[c(7) for _ in range(12)])
        src = minic.Printer(P, style).program()
        src = self.rewrite(c, src)
        case = dict(target=target, src=src, files=env["files"], modes=env["modes"], stdin=env["stdin"], argv=env["argv"], plan=plan, lay=lay,
                    expect=self.expectation(k, res), strict=self.strict, steps=it.steps)
        return case

    def rewrite(self, c, src):
        return src

    def expectation(self, k, res):
        return dict(kind=res[0], status=k.exited, msg=res[1] if res[0] == "failstop" else None, stdout=bytes(k.stdout.data), stderr=bytes(k.stderr.data),
                    files=k.snapshot(), hist=[list(h) for h in k.hist])

    def kern(self, case):
        return K.Kernel(case["files"], case["stdin"], case["plan"], None, case["modes"], case["target"] == "mac")

    def run(self, case):
        target = case["target"]
        st, img = compile_src(self.exe[target], case["src"])
        desc = "%s argv=%r stdin=%r plan=%r\n%s" % (target, case["argv"], case["stdin"][:60], case["plan"], case["src"])
        if st != 0:
            if self.rejects:
                return Outcome(["rejected", "pnut (%s) ended with status %d on a valid program: %r" % (target, st, img[-120:])], "rejected", desc=desc)
            return Outcome(None, "", False, {"compilation failed": 1}, 0, desc)
        k = self.kern(case)
        lay = case["lay"]
        r = machine.run(img, target, k, argv=case["argv"], env=lay["env"], limit=ERRORS_LIMIT, mmap=lay["mmap"], stack_top=lay["stack_top"], poison=lay["poison"])
        if r.kind == "unsupported":
            return Outcome(None, "", False, {"unsupported instruction": 1}, r.icount, desc)
        counts = collections.Counter({"target: " + target: 1, "system calls": len(k.hist)})
        for f, n in k.injected.items():
            counts["fault: " + f] += n
        self.probe(case, k, r, counts)
        v = self.judge(case, k, r)
        sig = (target, k.hist[:300], r.code)
        return Outcome(v, sig, len(k.hist) > 3, counts, r.icount, desc)

    rejects = False

    def probe(self, case, k, r, counts):
        pass

    def judge(self, case, k, r):
        e = case["expect"]
        if e["kind"] == "failstop":
            if r.kind != "exit" or r.code == 0:
                return ["no-failstop", "expected an error exit (%s), the process ended %r" % (e["msg"], r)]
        elif r.kind != "exit":
            return ["abnormal-end", "%s: expected exit status %s, the process ended %r after %d calls" % (case["target"], e["status"], r, len(k.hist))]
        if self.strict:
            h = [list(x) for x in k.hist]
            want = [list(x) for x in e["hist"]]
            if e["kind"] != "failstop":
                for i, (a, b) in enumerate(zip(h, want)):
                    if a != b:
                        return ["history", "%s: request %d is %r, expected %r" % (case["target"], i, a, b)]
                if len(h) != len(want):
                    return ["history", "%s: %d requests, expected %d; first extra %r" % (case["target"], len(h), len(want), (h + want)[min(len(h), len(want))])]
        out = bytes(k.stdout.data)
        if e["kind"] == "failstop":
            msg = e["msg"] or b""
            if not (out.startswith(e["stdout"]) and msg in out[len(e["stdout"]):] + bytes(k.stderr.data)):
                return ["failstop-output", "expected output %r then the message %r, got %r / %r" % (e["stdout"][-80:], msg, out[-120:], bytes(k.stderr.data)[-80:])]
            return None
        if r.code != e["status"]:
            return ["status", "%s: exit status %s, expected %s" % (case["target"], r.code, e["status"])]
        if out != e["stdout"]:
            return ["output", "%s: output differs at byte %d: %r, expected %r" % ((case["target"],) + diff(out, e["stdout"]))]
        if bytes(k.stderr.data) != e["stderr"]:
            return ["stderr", "standard error %r, expected %r" % (bytes(k.stderr.data)[:80], e["stderr"][:80])]
        if k.snapshot() != e["files"]:
            return ["files", "files %r, expected %r" % (k.snapshot(), e["files"])]
        return None

    def replan(self, case, pl):
        return None


def diff(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return i, bytes(a[max(0, i - 12):i + 40]), bytes(b[max(0, i - 12):i + 40])


class C01(Native):
    id = "C01"
    strict = True
    nfaults = 4
    rule = "a case is a seeded program of read/write/open/close/lseek/unlink calls with a file set, a memory layout and a fault plan placed on calls it makes; non-trivial when it makes more than 3 system calls"

    def draw(self, c, tier, target):
        g = iogen.SysIO(c, size=5 + c(22), feats={"mac": target == "mac"})
        files, modes = iogen.file_set(c)
        P = g.program()
        return dict(prog=P, files=files, modes=modes, stdin=iogen.some_bytes(c, c(60)), argv=[b"prog"], ops=None)


class C02(Native):
    id = "C02"
    nfaults = 1
    rule = "a case is a seeded program reading standard input and up to three files character by character, mixed with putchar and write; faults are failed or ended reads at stream positions, refused opens and high descriptor numbers"

    def draw(self, c, tier, target):
        g = iogen.CharIO(c, size=5 + c(22))
        files, modes = iogen.file_set(c)
        modes.pop("dir")
        P = g.program()
        stdin = iogen.some_bytes(c, c(90))
        plan = []
        for _ in range(c(4)):
            nm = (["<stdin>"] + sorted(files))[c(1 + len(files))]
            plan.append(PL.pos_fault(c, nm, len(stdin) if nm == "<stdin>" else len(files[nm])))
        seen, pl = set(), []
        for r in plan:
            if (r["obj"], r["pos"]) not in seen:
                seen.add((r["obj"], r["pos"]))
                pl.append(r)
        return dict(prog=P, files=files, modes=modes, stdin=stdin, argv=[b"prog"], ops={"open"}, plan=pl)

    def judge(self, case, k, r):
        v = super().judge(case, k, r)
        if v:
            return v
        oc = lambda h: [list(x)[:2] + list(x)[-1:] for x in h if x[0] in ("open", "close")]
        if oc(k.hist) != oc(case["expect"]["hist"]):
            return ["descriptors", "opens and closes %r, expected %r" % (oc(k.hist), oc(case["expect"]["hist"]))]
        return None


class C03(Native):
    id = "C03"
    nfaults = 0
    rule = "a case is a seeded history of malloc, free, fill and verify over several blocks, global and stack arrays, under a drawn memory placement; sizes reach across the heap limit"

    def prepare(self):
        super().prepare()
        # the room the executable itself asks the system for, as observed
        self.heap = {}
        for t in TARGETS:
            st, img = compile_src(self.exe[t], "int main() { malloc(1); return 0; }\n")
            r = machine.run(img, t, K.Kernel(mac=t == "mac"))
            self.heap[t] = max([m[1] for m in r.maps] or [0])
        harness.cleanup()

    def draw(self, c, tier, target):
        H = self.heap[target] or 104857600
        g = iogen.HeapProg(c, size=5 + c(20), feats={"heap": H, "big": c(3), "a_big": 1 + c(3)})
        P = g.program()
        return dict(prog=P, files={}, modes={}, stdin=b"", argv=[b"prog"], heap=H, limit=200000)

    def probe(self, case, k, r, counts):
        counts["probe: heap overflow reported" if case["expect"]["kind"] == "failstop" else "probe: all requests fit"] += 1


class C04(Native):
    id = "C04"
    nfaults = 0
    rule = "a case is a seeded program printing its arguments and ending at a drawn point through return or exit, started with drawn arguments, environment and memory placement"

    def draw(self, c, tier, target):
        f = {"args": c(5) > 0, "void": c(6) == 5}
        g = iogen.ArgsProg(c, size=3 + c(10), feats=f)
        P = g.program()
        n = [0, 1, 2, 3, 5, 12][c(6)]
        argv = [[b"prog", b"", b"./a b", b"/x/y" * 30][c(4)]] + [iogen.some_bytes(c, [0, 1, 3, 8, 40, 200][c(6)], 1, 255) for _ in range(n)]
        k = c(12)
        if k == 11:                                # more than fit in a byte
            argv += [b"", b"a", b"\xff\x01"][c(3):] * (128 + c(200))
        elif k == 10 and n:                        # longer than a page, longer than 64 KiB
            argv[1 + c(n)] = iogen.some_bytes(c, 40, 1, 255) * [100, 600, 1700][c(3)]
        return dict(prog=P, files={}, modes={}, stdin=b"", argv=argv, limit=400000 if k > 9 else 20000)


class C17(Native):
    id = "C17"
    rejects = True
    nfaults = 1
    budget = 60
    rule = "a case is a seeded well-defined C program over the supported subset reading drawn input, with drawn memory placement and a fault on one of its requests in some runs"

    def rewrite(self, c, src):
        return macroize.rewrite(c, src, False) if c(3) == 2 else src

    def draw(self, c, tier, target):
        k = c(5)
        if k == 4:
            g = iogen.CharIO(c, size=4 + c(12), feats={n: 1 for n in iogen.QUIET} | {"structs": 1, "funcs": 1, "plain": 0})
            P = g.program()
            files, modes = iogen.file_set(c)
            modes.pop("dir")
            return dict(prog=P, files=files, modes=modes, stdin=iogen.some_bytes(c, c(50)), argv=[b"prog"], ops={"open", "read"})
        if k > 1:
            g = wide.Wide(c, "exe", size=6 + c(22), feats={"x64": target != "i386", "stmts": [("w_stmt", [30, 60, 200][c(3)])]})
        else:
            g = gen.Gen(c, "exe", size=6 + c(22), feats=[{}, {"struct_op": 16, "aggr": 1}, {"s_goto": 6, "struct_op": 5}][c(3)])
        P = g.program()
        return dict(prog=P, files={}, modes={}, stdin=b"", argv=[b"prog"], ops=set())
