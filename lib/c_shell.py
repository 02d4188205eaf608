"""Checks of the shell backend: C05-C10 and C18. Every run is the real shell
interpreting the script pnut-sh made of a generated program, under the process
simulator (sim/ptsim.c); the expected result comes from the reference
interpreter (lib/minic.py) against the simulated kernel's file model."""
import collections, os, re
import build, gen, harness, iogen, kernel as K, macroize, minic, proc, shgen
from c_native import compile_src, diff
from harness import Check, Discard, Outcome

# shells weighted by what a run costs; every one occurs often
SH = ["dash", "bash", "ksh", "yash", "zsh", "mksh", "dash", "ksh"]
VARS = ["sh", "sh", "sh-rel", "sh-fast", "sh-compact", "sh-plain", "sh-printf", "sh-keep", "sh-inc-c", "sh-safe"]


class Shell(Check):
    technique = "seeded runs of the real shells interpreting pnut-sh's scripts in a process simulator (serial seeded scheduler, planned I/O faults), compared with a reference interpreter"
    note = "Exploration: seeded sampling of programs, inputs, shells, compiler options, process schedules and fault plans, every run repeatable from its case file. Trusts the installed shells, the reference interpreter and the process simulator."
    simtime = "simulated_steps counts the system calls the simulator decided; the simulated system has no clock but a 1 s tick for timeouts"
    distinct_by = "hash of (shell, options, sequence of calls on simulated objects, exit status, output)"
    components = {"real": "pnut-sh (host build of the current tree), the script and run-time library it generates, the six shells, external printf where mksh needs it",
                  "stub": "process scheduling, order and size of reads and writes, failures of system calls (process simulator over seccomp and ptrace)"}
    assumptions = ["lib/minic.py gives the meaning of the generated C programs", "the installed shells are the supported ones"]
    shells = SH
    variants = VARS
    budget = 60
    log = 1

    def prepare(self):
        build.ptsim()
        self.exe = {v: build.pnut(v) for v in sorted(set(self.variants))}

    # a property's part: -> dict(prog, files, stdin, stdin_kind, argv, ...)
    def draw(self, c, tier, shell, variant):
        raise NotImplementedError

    def pick_system(self, c):
        return self.shells[c(len(self.shells))], self.variants[c(len(self.variants))]

    def interp(self, env):
        k = K.Kernel(env["files"], env["stdin"], [], None, env.get("modes", {}))
        it = minic.Interp(env["prog"], "sh", k, argv=env["argv"], limit=env.get("limit", 12000))
        it.chi = env.get("chi", 127)
        res = it.run()
        return k, res, it

    def make(self, c, tier):
        shell, variant = self.pick_system(c)
        env = self.draw(c, tier, shell, variant)
        env["shell"] = shell
        try:
            k, res, it = self.interp(env)
        except minic.UB as e:
            raise Discard("undefined: " + str(e)[:40])
        if it.code < 0 and shell in ("dash", "yash"):
            raise Discard("known finding C09-negative-status")
        if it.steps > self.cap(shell):
            raise Discard("too long")
        pr = minic.Printer(env["prog"], gen.Choices(replay=[c(7) for _ in range(12)]))
        pr.nohex = shell == "zsh"          # known finding C18-zsh-hex
        src = self.rewrite(c, pr.program())
        case = dict(shell=shell, variant=variant, src=src, files=env["files"], stdin=env["stdin"], stdin_kind=env.get("stdin_kind", "file"), argv=env["argv"],
                    env=env.get("env"), fds=env.get("fds", []), plan=self.plan(c, env), seed=c(1 << 20), argv0=env.get("argv0"), modes=env.get("modes", {}),
                    outs=sorted(set(k.snapshot())),
                    expect=dict(kind=res[0], status=k.exited, msg=res[1] if res[0] == "failstop" else None, stdout=bytes(k.stdout.data), files=k.snapshot()))
        self.extend(c, case)
        return case

    def rewrite(self, c, src):
        return src

    def cap(self, shell):
        return 12000

    def plan(self, c, env):
        return []

    def extend(self, c, case):
        pass

    def compile(self, case):
        return compile_src(self.exe[case["variant"]], case["src"])

    def start(self, case, script, faults=None, **kw):
        files = dict(case["files"])
        files["prog.sh"] = script
        return proc.run(proc.SHELLS[case["shell"]], ["prog.sh"] + [bytes(a) for a in case["argv"][1:]], files=files, stdin=case["stdin"], stdin_kind=case["stdin_kind"],
                        seed=case["seed"] + 1, faults=[tuple(f) for f in (case["plan"] if faults is None else faults)], collect=case["outs"], env_list=case["env"],
                        extra_fds=case["fds"], modes=case["modes"], log=self.log, cpu=60, **kw)

    def describe(self, case):
        return "%s %s stdin(%s)=%r argv=%r plan=%r env=%r\n%s" % (case["shell"], case["variant"], case["stdin_kind"], case["stdin"][:80], case["argv"][1:], case["plan"], case["env"], case["src"])

    def run(self, case):
        st, script = self.compile(case)
        desc = self.describe(case)
        if st != 0:
            if self.rejects:
                return Outcome(["rejected", "pnut-sh (%s) ended with status %d on a valid program: %r" % (case["variant"], st, script[-120:])], "rejected", desc=desc)
            return Outcome(None, "", False, {"compilation failed": 1}, 0, desc)
        r = self.start(case, script)
        counts = collections.Counter({"shell: " + case["shell"]: 1, "options: " + case["variant"]: 1, "system calls": r.ncalls, "scheduler decisions": r.decisions})
        if r.escapes:
            counts["scheduler escapes"] += r.escapes
        for f, (i, used) in zip(case["plan"], r.faults):
            if used:
                counts["fault: %s %s" % (f[0], "short" if f[3] == "s" else K.ERRNAME.get(f[4], f[4]))] += used
        if r.kind == "limit":
            return Outcome(None, "", False, dict(counts, **{"over the simulator's limits": 1}), r.ncalls, desc)
        v = self.judge(case, script, r)
        self.probe(case, r, counts)
        return Outcome(v, (case["shell"], case["variant"], r.calls[:400], r.code, r.out[:2000]), self.nontrivial(case, r), counts, r.ncalls, desc)

    rejects = False

    def nontrivial(self, case, r):
        return len(case["expect"]["stdout"]) > 3

    def probe(self, case, r, counts):
        if case["expect"]["kind"] == "failstop":
            counts["probe: ends by an error"] += 1

    def who(self, case):
        return "%s (%s)" % (case["shell"], case["variant"])

    def judge(self, case, script, r):
        e = case["expect"]
        w = self.who(case)
        if r.kind != "exit":
            return ["abnormal-end", "%s: ended by %s %s, expected exit status %s; stderr %r" % (w, r.kind, r.code, e["status"], r.err[-150:])]
        out, want = r.out, e["stdout"]
        if e["kind"] == "failstop" and e["msg"] and e["msg"].startswith(b"No more") and want.endswith(e["msg"]):
            # what follows the fixed part of the message depends on the shell's echo
            n = len(want) - len(e["msg"])
            if out[:n] == want[:n] and b"No more file descriptors available" in out[n:]:
                out = want
        if out != want:
            return ["output", "%s: output differs at byte %d: %r, expected %r; stderr %r" % ((w,) + diff(out, want) + (r.err[-150:],))]
        if e["kind"] == "failstop":
            if r.code == 0:
                return ["no-failstop", "%s: exit status 0 after %r" % (w, e["msg"])]
        elif r.code != e["status"]:
            return ["status", "%s: exit status %s, expected %s; stderr %r" % (w, r.code, e["status"], r.err[-150:])]
        for n in case["outs"]:
            if r.files.get(n) != e["files"][n]:
                return ["files", "%s: file %r differs at byte %d: %r, expected %r" % ((w, n) + diff(r.files.get(n, b""), e["files"][n]))]
        return None


def names(c, n):
    out = []
    for _ in range(n):
        nm = shgen.NAMES[c(len(shgen.NAMES))] if c(3) else "f%d" % len(out)
        if nm not in out:
            out.append(nm)
    return out or ["a"]


def chunks(c, objs, ops=("read",), shell=None):
    """Short reads or writes: some single ones, sometimes every one."""
    out = []
    for o in objs:
        for op in ops:
            k = c(4)
            if op == "write" and shell == "ksh":       # ksh itself gives up after two short writes in a row
                for i in sorted(set(c(12) for _ in range(k))):
                    out.append([op, o, 4 * i, "s", 1 + c(30)])
                continue
            if k == 1:
                out.append([op, o, -1 - c(3), "s", 1 + c(7)])
            elif k == 2:
                for _ in range(1 + c(3)):
                    out.append([op, o, c(12), "s", 1 + c(30)])
            elif k == 3:
                out.append([op, o, -1, "s", 1])
    return out


def variant_feats(variant):
    return {"init_arrays": 0 if variant == "sh-plain" else 1}


class C05(Shell):
    id = "C05"
    rule = "a case is a seeded program reading standard input and files through getchar, fgetc and read, a shell, a compiler configuration, drawn inputs and a plan of short reads; non-trivial when it outputs more than 3 bytes"

    def draw(self, c, tier, shell, variant):
        nm = names(c, 1 + c(3))
        most = 2003 if shell in ("ksh", "zsh") or variant == "sh-rel" and shell != "mksh" else 1002 if shell != "mksh" else 530   # what the shell can do in a second
        files = {n: shgen.lines(c, most=most) for n in nm}
        stdin = shgen.lines(c, most=most)
        std = ["getchar", "getchar", "read", "none"][c(4)]
        g = shgen.InSh(c, dict(variant_feats(variant), names=nm, std=std), 3 + c(12), shell)
        P = g.program()
        return dict(prog=P, files=files, stdin=stdin, stdin_kind=["file", "pipe"][c(2)], argv=[b"prog"], limit=90000)

    def cap(self, shell):
        return 60000

    def plan(self, c, env):
        return chunks(c, (["stdin"] if env["stdin_kind"] == "pipe" else [".stdin"]) + sorted(env["files"]))


class C06(Shell):
    id = "C06"
    rule = "a case is a seeded program writing through putchar, putstr, printf and write to standard output and files, a shell, a compiler configuration and a plan of short writes; non-trivial when it outputs more than 3 bytes"

    def draw(self, c, tier, shell, variant):
        nm = ["o%d" % i for i in range(1 + c(2))]
        files = {n: shgen.text(c, c(30)) for n in nm if c(2)}
        g = shgen.OutSh(c, dict(variant_feats(variant), names=nm, rt=variant == "sh-printf"), 3 + c(14), shell)
        P = g.program()
        return dict(prog=P, files=files, stdin=b"", argv=[b"prog"], names=nm, chi=255)      # bytes to write, no arithmetic on them

    def plan(self, c, env):
        return chunks(c, [".stdout"] + env["names"], ("write",), env["shell"])


class C07(Shell):
    id = "C07"
    rule = "a case is a seeded history of open, fopen, read, fgetc, write, close and fclose over up to ten descriptors, a shell, a configuration and short reads and writes; non-trivial when it makes more than three calls on files"

    def draw(self, c, tier, shell, variant):
        nm = names(c, 1 + c(4))
        files = {n: shgen.lines(c, c(4) == 3) for n in nm}
        g = shgen.FdSh(c, dict(variant_feats(variant), names=nm), 4 + c(22), shell)
        P = g.program()
        for o in sorted(x for v in g.outs.values() for x in v):
            if c(3) == 2:
                files[o] = shgen.text(c, c(20))
        return dict(prog=P, files=files, stdin=shgen.text(c, c(30)), argv=[b"prog"], names=nm, g=g)

    def plan(self, c, env):
        return chunks(c, env["names"][:2]) + chunks(c, [".stdout"] + sorted(x for v in env["g"].outs.values() for x in v)[:2], ("write",), env["shell"])

    def nontrivial(self, case, r):
        return sum(1 for x in r.calls if x[1] not in (".stdout", ".stderr", "prog.sh")) > 3


class C08(Shell):
    id = "C08"
    rule = "a case is a seeded history of malloc, free, fills and checks of blocks, arrays, literals and streams, a shell and a compiler configuration; non-trivial when it outputs more than 3 bytes"

    def draw(self, c, tier, shell, variant):
        nm = names(c, 1)
        g = shgen.HeapSh(c, dict(variant_feats(variant), names=nm), 4 + c(20), shell)
        P = g.program()
        files = {nm[0]: shgen.lines(c)}
        return dict(prog=P, files=files, stdin=b"", argv=[b"prog"] + [shgen.text(c, c(9)) for _ in range(c(3))], limit=30000)

    def cap(self, shell):
        return 25000


IDENT = re.compile(r"[a-z_][A-Za-z_0-9]*")
# what shells or the system give a meaning of their own
OWN = {"path", "cdpath", "fpath", "manpath", "mailpath", "status", "argv", "pipestatus", "prompt", "psvar", "watch", "signals", "histchars", "aliases",
       "functions", "options", "commands", "parameters", "_", "module_path", "fignore", "zsh_eval_context"}
IFSES = [" ", "", "0123456789", "_$*", "abcdefghijklmnopqrstuvwxyz", "\n", "-=/", ":x1"]
VALUES = ["5", "", "abc", "1+1", "-3", "x y", "*", "0", "$(touch pwn)", "99999", "a[$(touch pwn)]", "\\", "1", "/", "08"]


class C09(Shell):
    id = "C09"
    rule = "a case is a seeded program (arguments, input, output, descriptors or memory), a shell, a configuration, drawn arguments, environment variables (shell-relevant ones and names the script itself uses), working-directory entries and inherited descriptors; non-trivial when the environment is not empty"

    def draw(self, c, tier, shell, variant):
        k = c(6)
        f = dict(variant_feats(variant))
        files, stdin, argv, nm = {}, b"", [b"prog.sh"], []
        if k < 3:
            f.update(void=int(c(6) == 5), args=int(c(5) != 4), s_nl=0)
            g = shgen.ArgsSh(c, f, 3 + c(8), shell)
            argv += [shgen.text(c, c(12) if c(8) else [15, 16, 17, 26, 31, 33, 255, 256, 257, 272, 511, 513, 600][c(13)]) if c(4) else [b"", b"-n", b"--", b"-", b"*", b"$(touch pwn)", b"`touch pwn`", b"\n", b"a b", b"-x", b"\\", b"a\nb\n", b"%s%d", b"+e"][c(14)] for _ in range(c(6) if c(12) else 9 + c(8))]
        elif k == 3:
            nm = names(c, 1 + c(2))
            files = {n: shgen.lines(c, most=272) for n in nm}
            stdin = shgen.lines(c, most=272)
            g = shgen.InSh(c, dict(f, names=nm, std=["getchar", "getchar", "read", "none"][c(4)]), 3 + c(8), shell)
        elif k == 4:
            nm = ["o%d" % i for i in range(1 + c(2))]
            g = shgen.OutSh(c, dict(f, names=nm, rt=variant == "sh-printf"), 3 + c(8), shell)
        else:
            nm = names(c, 1)
            files = {nm[0]: shgen.lines(c, most=272)}
            g = shgen.HeapSh(c, dict(f, names=nm), 4 + c(10), shell)
        P = g.program()
        return dict(prog=P, files=files, stdin=stdin, argv=argv, limit=30000, chi=255)

    def extend(self, c, case):
        st, script = self.compile(case)
        env = {"PATH": "/usr/bin:/bin"}
        if st == 0:
            # known finding C09-inherited-string-variable: variables that hold the addresses of string literals
            text = script.decode("latin1")
            ids = sorted(set(IDENT.findall(text)) - OWN - set(re.findall(r"defstr (\w+)", text)))
            for _ in range(c(6)):
                k = c(8)
                v = VALUES[c(len(VALUES))]
                if k == 0:
                    env["IFS"] = IFSES[c(len(IFSES))]
                elif k == 1:
                    env["LC_ALL"] = ["C", "C.UTF-8", "POSIX", "xx_YY", "en_US.UTF-8"][c(5)]
                elif k == 2:
                    env[["PS4", "PS1", "HOME", "LANG", "CDPATH", "TERM", "SHLVL", "LC_CTYPE", "PWD", "OLDPWD", "LC_NUMERIC"][c(11)]] = ["C.UTF-8", "$(touch pwn)", "", "3", "/"][c(5)]
                elif ids and k < 7:
                    env[ids[c(len(ids))]] = v
                else:
                    env["_%d" % c(40)] = v
        case["env"] = ["%s=%s" % kv for kv in env.items()]
        cwd = {}
        for _ in range(c(4)):
            n = ["*", "-n", "a", "0", "1", "printf", "read", "[", "-", "z9", "echo", "set", "malloc", "x y", "_1", "-e"][c(16)]
            if n not in case["files"] and n not in case["outs"]:
                cwd[n] = b"touch pwn\n"
        case["cwd"] = sorted(cwd)
        case["files"] = dict(case["files"], **cwd)
        case["outs"] = sorted(set(case["outs"]) | set(cwd) | {"pwn"})
        case["expect"]["files"] = dict(case["expect"]["files"], pwn=b"", **cwd)
        case["fds"] = [[3 + i, "rw", "fd%d" % i] for i in range(c(4))]
        for fd, kind, nm in case["fds"]:
            case["files"][nm] = b"inherited\n"
            case["expect"]["files"][nm] = b"inherited\n"
            case["outs"].append(nm)

    def plan(self, c, env):
        return []

    def nontrivial(self, case, r):
        return len(case["env"]) > 1 or bool(case["cwd"]) or bool(case["fds"])

    def probe(self, case, r, counts):
        super().probe(case, r, counts)
        for e in case["env"][1:]:
            n = e.split("=")[0]
            counts["probe: environment variable " + (n if n.isupper() or n in ("LC_ALL",) else "of the script")] += 1
        counts["probe: inherited descriptors"] += len(case["fds"])
        counts["probe: arguments"] += len(case["argv"]) - 1


class C10(Shell):
    id = "C10"
    rule = "a case is a seeded program that opens and writes, a shell, a configuration and one or two system-call failures placed on opens and writes a fault-free run of the same case makes; non-trivial when a planned failure happened"

    def draw(self, c, tier, shell, variant):
        k = c(4)
        f = dict(variant_feats(variant))
        files, stdin, g = {}, b"", None
        if k == 0:
            nm = ["o%d" % i for i in range(1 + c(2))]
            files = {n: shgen.text(c, c(30)) for n in nm if c(2)}
            g = shgen.OutSh(c, dict(f, names=nm, rt=variant == "sh-printf"), 3 + c(8), shell)
        elif k == 1:
            nm = names(c, 1 + c(2))
            files = {n: shgen.lines(c, most=272) for n in nm}
            stdin = shgen.lines(c, most=272)
            g = shgen.InSh(c, dict(f, names=nm, std=["getchar", "getchar", "read", "none"][c(4)]), 3 + c(8), shell)
        else:
            nm = names(c, 1 + c(4))
            files = {n: shgen.lines(c, most=272) for n in nm}
            stdin = shgen.text(c, c(30))
            g = shgen.FdSh(c, dict(f, names=nm), 4 + c(14), shell)
        P = g.program()
        return dict(prog=P, files=files, stdin=stdin, argv=[b"prog"], limit=30000, chi=255)

    log = 2

    def extend(self, c, case):
        st, script = self.compile(case)
        if st != 0:
            raise Discard("does not compile")
        if case["shell"] == "bash" and re.search(rb'printf "[^\n]*\\n[^"\n]', script):
            raise Discard("bash's own printf ignores a failure at a newline inside the format")
        r = self.start(case, script, faults=[])
        if r.kind != "exit" or self.judge_free(case, r):
            raise Discard("fault-free run differs")
        own = set(case["files"]) | set(case["outs"])
        at = [x for x in r.calls if x[1] in own and x[0] == "open" or x[1] in own | {".stdout"} and x[0] == "write"]
        if not at:
            raise Discard("no call to fail")
        opens = [x for x in at if x[0] == "open"]
        plan = []
        for _ in range(1 + (c(4) == 3)):
            x = at[c(len(at))] if not opens or c(2) else opens[c(len(opens))]
            errs = [K.ENOENT, K.EACCES, K.EMFILE, K.EIO, K.ENOSPC] if x[0] == "open" else [K.ENOSPC, K.EIO, K.EFBIG, K.EDQUOT]
            n = x[2] if c(3) == 2 else -1 - x[2]
            if x[0] == "write" and c(4) == 3 and case["shell"] != "ksh":
                plan.append(["write", x[1], n, "s", 1 + c(6)])
                n = -2 - x[2] if n < 0 else n + 1
            plan.append([x[0], x[1], n, "e", errs[c(len(errs))]])
        case["plan"] = plan

    def judge_free(self, case, r):
        return Shell.judge(self, case, None, r)

    def nontrivial(self, case, r):
        return any(case["plan"][i][3] == "e" and u for i, u in r.faults)

    def judge(self, case, script, r):
        e = case["expect"]
        w = self.who(case)
        if r.kind != "exit":
            return ["abnormal-end", "%s: ended by %s %s; stderr %r" % (w, r.kind, r.code, r.err[-150:])]
        failed = [case["plan"][i] for i, u in r.faults if case["plan"][i][3] == "e" and u]
        if not failed:
            return None
        lost = [n for n in case["outs"] if r.files.get(n, b"") != e["files"][n]]
        if r.code == 0:
            if r.out == e["stdout"] and not lost and e["kind"] == "exit":
                if all(f[2] >= 0 for f in failed):
                    return None        # the shell tried again and succeeded
            return ["status-0", "%s: exit status 0 although %s failed (%s)" % (w, failed[0][:2], K.ERRNAME.get(failed[0][4]))]
        if not e["stdout"].startswith(r.out) and b"No more file" not in r.out:
            return ["not-prefix", "%s: standard output is not a prefix of the fault-free output, it differs at byte %d: %r, expected %r" % ((w,) + diff(r.out, e["stdout"]))]
        # nothing reaches an output after the failed call
        first = min((j for j, x in enumerate(r.calls) if x[3] < 0 and any(x[0] == f[0] and x[1] == f[1] and (x[2] == f[2] or f[2] < 0 and x[2] >= -f[2] - 1) for f in failed)), default=None)
        if first is not None:
            for x in r.calls[first + 1:]:
                if x[0] == "write" and x[1] != ".stderr" and x[3] > 0:
                    return ["carried-on", "%s: wrote to %s after %s failed (%s), exit status %d" % (w, x[1], failed[0][:2], K.ERRNAME.get(failed[0][4]), r.code)]
                if x[0] == "open" and x[3] >= 0 and x[1] in case["expect"]["files"]:
                    return ["carried-on", "%s: opened %s after %s failed (%s), exit status %d" % (w, x[1], failed[0][:2], K.ERRNAME.get(failed[0][4]), r.code)]
        return None


class C18(Shell):
    id = "C18"
    rejects = True
    budget = 75
    rule = "a case is a seeded well-defined C program of pnut-sh's subset, a shell and a compiler configuration; non-trivial when it outputs more than 3 bytes"

    def draw(self, c, tier, shell, variant):
        feats = dict(variant_feats(variant))
        feats["s_nl"] = variant != "sh-printf"       # known finding C06-trailing-newline
        feats["neg"] = shell != "ksh"                # known finding C18-ksh-negative-zero
        g = gen.Gen(c, "sh", size=5 + c(16), feats=feats)
        P = g.program()
        return dict(prog=P, files={}, stdin=b"", argv=[b"prog"], limit=9000)

    def rewrite(self, c, src):
        return macroize.rewrite(c, src, True) if c(3) == 2 else src

    def cap(self, shell):
        return 6000
