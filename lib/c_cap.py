"""C16: programs that exceed what the compiler holds, and memory the system refuses."""
import collections, os, re
import build, capgen, harness, kernel as K, machine, proc
from c_comp import ASAN, Comp, EXE, is_sh
from c_native import diff
from harness import Discard, Outcome


class C16(Comp):
    id = "C16"
    rule = "a case is a program of known output, large along one or two dimensions (identifiers, strings, code, nesting, macros, ...) or any source, a compiler build (host, host with address checks, or by pnut itself) and refused or limited memory; the program is run when the compiler reports success; non-trivial when the compiler ended"
    vars = EXE + ("sh", "sh-fast", "i386-rel", "x64-rel", "sh-rel", "sh-safe", "i386-safe", "sh-inc-c", "sh-compact")
    checked = EXE + ("sh", "sh-fast", "sh-inc-c", "i386-safe", "sh-rel")
    budget = 70
    scale = 60000

    def extra(self):
        self.alt = {v: p for v, p in zip(self.checked, build.together([lambda v=v: build.pnut(v, kind="asan") for v in self.checked])) if p}
        self.boots = {(h, v): build.boot(v, h) for h in EXE for v in EXE + ("sh",)}

    def size(self, c):
        k = c(6)
        if k == 0:
            return 1 + c(12)
        if k == 1:
            return 1 + c(100)
        if k == 2:
            return 1 << c(13)
        if k == 3:
            return 1 + c(3000)
        # around a power of ten, or anywhere below the scale
        return 1 + int(2 ** (c(1000) / 1000.0 * 16.5)) if k == 4 else 1 + c(self.scale)

    def make(self, c, tier):
        kind = ("host", "host", "asan", "asan", "own")[c(5)]
        variant = self.checked[c(len(self.checked))] if kind == "asan" else (EXE + ("sh",))[c(4)] if kind == "own" else self.vars[c(len(self.vars))]
        case = dict(variant=variant, kind=kind, files={}, args=["p.c"], modes={}, own=EXE[c(3)] if kind == "own" else None, mem=[], as_=0, want=None, names="", biggest=0)
        sh = is_sh(variant)
        k = c(8)
        if k == 7:
            src = self.src(c, variant, 2, 6).decode("latin1")
            case["names"] = "a source"
        else:
            ps = [(capgen.PIECES[c(len(capgen.PIECES))], self.size(c)) for _ in range(1 + (c(4) == 3))]
            if kind == "own":
                ps = [(f, min(n, 1500)) for f, n in ps]
            if len(ps) > 1 and ps[0][0] is ps[1][0]:
                ps.pop()
            r = capgen.program(c, ps, sh)
            if r is None:
                raise Discard("not in the dialect")
            src, case["want"] = r
            case["biggest"] = max(n for _, n in ps)
            case["names"] = " ".join("%s(%d)" % (f.__name__[2:], n) for f, n in ps)
        if len(src) > 2000000:
            raise Discard("a source over 2 MB")
        case["files"]["p.c"] = src.encode("latin1", "replace")
        if k == 6 or c(12) == 11:
            # a chain of includes
            n = [1 + c(20), 1 + c(300), 1 + c(1500)][c(3)]
            case["names"] += " includes(%d)" % n
            for i in range(n):
                case["files"]["i%d.h" % i] = b'#include "i%d.h"\n' % (i + 1)
            case["files"]["i%d.h" % n] = case["files"]["p.c"]
            case["files"]["p.c"] = b'#include "i0.h"\n'
        if k >= 5 or c(5) == 4:
            if kind == "own":
                case["mem"] = [["mmap", "", c(2), "e", K.ENOMEM]]
            elif kind == "host":
                if c(2):
                    for _ in range(1 + c(2)):
                        n = c(12)
                        case["mem"].append(["mem", ["brk", "mmap"][c(2)], n if c(2) else -1 - n, "e", K.ENOMEM])
                else:
                    case["as_"] = (1 + c(40)) << 20
        return case

    def run(self, case):
        v, kind = case["variant"], case["kind"]
        desc = "%s %s own=%s mem=%s as=%d: %s" % (case["names"], kind, case["own"], case["mem"], case["as_"], self.describe(case) if sum(map(len, case["files"].values())) < 4000 else "(large)")
        counts = collections.Counter({"build: %s %s" % (v, kind + (" for " + case["own"] if case["own"] else "")): 1})
        for w in case["names"].split():
            counts["probe: " + w.split("(")[0]] += 1
        who = "%s of %s" % ({"host": "host build", "asan": "host build with address checks", "own": "build by pnut for %s" % case["own"]}[kind], v)
        if kind == "own":
            plan = [dict(op="mmap", obj="", n=f[2], do="err", errno=f[4]) for f in case["mem"]]
            r, k = self.boot(case["own"], v, case, plan, limit=300_000_000)
            rk, code, out, steps = r.kind, r.code, bytes(k.stdout.data), r.icount
            for f, n in k.injected.items():
                counts["fault: self-compiled " + f] += n
            if rk == "limit":
                return Outcome(None, "", False, dict(counts, **{"self-compiled: " + rk: 1}), steps, desc)
        else:
            env = dict(proc.ENV)
            if kind == "asan":
                env.update(ASAN)
            r = self.host(v, case, exe=self.alt.get(v) if kind == "asan" else None, faults=case["mem"], mem=bool(case["mem"]), as_=case["as_"], seed=1, cpu=20, env=env, log=0)
            rk, code, out, steps = r.kind, r.code, r.out, r.ncalls
            tally(counts, case["mem"], r)
            if case["as_"]:
                counts["fault: address space limit"] += 1
            if rk == "limit":
                return Outcome(None, "", False, dict(counts, **{"over the simulator's limits": 1}), steps, desc)
            if kind == "asan" and (rk, code) == ("exit", 97):
                m = re.search(rb"ERROR: AddressSanitizer: (\S+)", r.err)
                f = re.search(rb"global variable '(\w+)'", r.err)
                return Outcome(["memory-error", "%s: %s: %s %s" % (who, case["names"], m.group(1).decode() if m else "", f.group(1).decode() if f else r.err[-300:].decode("latin1"))], "", True, counts, steps, desc)
        ok = (rk, code) == ("exit", 0)
        counts["probe: accepted" if ok else "probe: rejected" if rk == "exit" else "probe: crashed"] += 1
        viol = None
        if ok and case["want"] is not None:
            viol = self.execute(case, v, out, who, counts)
        elif ok and (case["mem"] or case["as_"]):
            free = dict(case)
            b = self.host(v, free, seed=1)
            if (b.kind, b.code) != ("exit", 0) or b.out != out:
                viol = ["silent-miscompilation", "%s ended with status 0 under refused memory but its output differs at byte %d" % (who, diff(out, b.out)[0])]
        return Outcome(viol, (v, kind, case["names"], rk, code, case["mem"]), True, counts, steps, desc)

    def execute(self, case, v, out, who, counts):
        """Runs the compiled program."""
        if is_sh(v):
            if len(out) > 60000:
                counts["probe: large scripts not run"] += 1
                return None
            shells = ["dash", "ksh", "bash", "yash"]
            for sh in shells[len(out) % 2:] + shells[:len(out) % 2]:
                r = proc.run(proc.SHELLS[sh], ["prog.sh"], files={"prog.sh": out}, seed=1, cpu=8, log=0)
                kind, code, got = r.kind, r.code, r.out
                if (kind, code) == ("exit", 0):
                    break
            else:
                # shells have limits of their own; those are not met by small programs
                if case["biggest"] > 50 or kind == "limit":
                    counts["probe: limits of the shell"] += 1
                    return None
        else:
            t = "i386" if v.startswith("i386") else "mac" if v.startswith("mac") else "x64"
            k = K.Kernel({}, b"", [], None, {}, t == "mac")
            r = machine.run(out, t, k, limit=60_000_000)
            kind, code, got = r.kind, r.code, bytes(k.stdout.data)
            if kind == "limit":
                return None
            if len(r.maps) < 2 and "huge" in case["names"]:
                counts["probe: programs too large for the machine"] += 1
                return None
        counts["probe: programs run"] += 1
        if (kind, code) != ("exit", 0) or got != case["want"]:
            return ["silent-miscompilation", "%s ended with status 0 for %s but the program ends with %s %s and writes %r instead of %r %r" % (who, case["names"], kind, code, got[:100], case["want"][:100], r.err[-200:] if is_sh(v) else "")]
        return None


def tally(counts, plan, r):
    for i, used in r.faults:
        if used:
            counts["fault: %s refused" % plan[i][1]] += used
