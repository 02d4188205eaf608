"""Workload generators of the shell-backend properties (C05-C10): programs of
plain constructs around dense sequences of runtime-library calls, in pnut-sh's
dialect. lib/gen.py generates the programs of C18."""
from iogen import ArgsProg, Base, QUIET, V, I, C, A, X, B, S, IF, WH, BL, IDX, ADDR
import minic

BLANK = " \t\\\"'`$*?[]{}()|&;<>#~!%-=^,.:/@+_"
HAZARD = [" ", "\t", "\\", '"', "'", "`", "$", "*", "?", "[", "]", "{", "}", "(", ")", "|", "&", ";", "<", ">", "#", "~", "!", "%", "-", "=", "^", "a", "e", "Z", "0", "9",
          "\\n", "$x", "$(", "${", "`echo", "\\0", "\\c", "--", "-n", "-e", "%s", "%d", "%%", "\x01", "\x7f", "\x1b", "\r", "\x0b", "\x0c", "\x08", "\x07"]
NAMES = ["a", "b.txt", "x y", "s*r", "d$HOME", "-n", "q'q", 'q"q', "[x]", "b\\n", "~", "#h", "a;b", "sub/f", "?"]


def text(c, n, nl=True, hi=127):
    """n bytes of text with the shapes that matter to a shell."""
    k = c(7)
    out = bytearray()
    if k == 0:
        while len(out) < n:
            out += bytes(97 + (len(out) + i) % 26 for i in range(9)) + (b"\n" if nl else b" ")
    elif k == 1:
        out += bytes(1 + c(hi) for _ in range(n))
    elif k == 2:
        while len(out) < n:
            out += HAZARD[c(len(HAZARD))].encode("latin1")
            if nl and c(6) == 5:
                out += b"\n"
    elif k == 3:
        while len(out) < n:
            out += [b" ", b"  x ", b"\t", b"\n" if nl else b" ", b"\\", b"\\\n" if nl else b"\\ ", b" \n" if nl else b"  ", b"\n\n" if nl else b" "][c(8)]
    elif k == 4:
        b = [97, 32, 92, 10 if nl else 9, 42, 36, 1, 127, 39, 34, 37][c(11)]
        out += bytes([b]) * n
    elif k == 5:
        s = 1 + c(hi)
        out += bytes((s + i) % hi + 1 for i in range(n))
    else:
        while len(out) < n:
            out += bytes(33 + c(94) for _ in range(c(12))) + [b" ", b"\n" if nl else b";"][c(2)]
    out = out[:n]
    if not nl:
        out = out.replace(b"\n", b"N")
    return bytes(out)


LONG = [14, 15, 16, 17, 31, 32, 33, 48, 254, 255, 256, 257, 271, 272, 273, 288, 511, 512, 513, 528, 996, 997, 998, 999, 1000, 1001, 1002, 1500, 1994, 1995, 1996, 1998, 2000, 2003]


def lines(c, longs=True, most=2003):
    """A file of several lines, some around the sizes of the runtime's buffers."""
    out = b""
    for _ in range(c(5)):
        k = c(6)
        if k == 5 and longs:
            n = min(LONG[c(len(LONG))], most)
            t = text(c, min(n, 40), False)
            out += (t * (n // max(len(t), 1) + 1))[:n]
        elif k == 4:
            pass
        else:
            out += text(c, c(24), k == 3)
        out += b"\n"
    if c(2):
        out += text(c, c(20), c(2) == 1)
    return out


class ShBase(Base):
    """sh dialect; sum(p, n, s) folds n cells into a number."""

    def __init__(self, choices, feats=None, size=12, shell="dash", act=3):
        f = {"init_arrays": 1, "out_str": 0}
        f.update(feats or {})
        super().__init__(choices, "sh", f, size, act)
        self.shell = shell

    def func(self, nm, rt, ps, body):
        self.P.funcs.append((nm, rt, ps, body))
        self.P.order.append(("func", nm))

    def setup(self):
        n, p, i, h = V("n"), V("p"), V("i"), V("h")
        self.func("pi", "void", [("n", "int")], [X(C("printf", S("%d "), n))])
        for nm, t in (("sum", "char"), ("sumi", "int")) if self.f("sumi", 0) else (("sum", "char"),):
            self.func(nm, "int", [("p", ("p", t)), ("n", "int")], [
                ["decl", "i", "int", I(0)], ["decl", "h", "int", I(7)],
                WH(B("<", i, n), [X(A(h, B("&", B("+", B("*", h, I(31)), IDX(p, i)), I(32767)))), X(["inc", True, 1, i])]), ["return", h]])
        if self.f("putstr", 0):
            self.func("putstr", "void", [("s", ("p", "char"))], [WH(["deref", V("s")], [X(C("putchar", ["deref", V("s")])), X(A(V("s"), B("+", V("s"), I(1))))])])
        return []

    def dump(self):
        return []

    def path(self, only=None):
        return S(self.pick(only or self.names))


def drain(c, lim, call, k="k", style=0):
    """Reads call until end of file into a running sum; prints count and sum."""
    cv, i, h = V("c"), V(k), V(k + "h")
    upd = [X(A(h, B("&", B("+", B("*", h, I(31)), cv), I(32767)))), X(["inc", True, 1, i])]
    st = [["decl", k, "int", I(0)], ["decl", k + "h", "int", I(3)]]
    if style:
        st += [WH(["and", B("<", i, I(lim)), B("!=", ["paren", A(cv, call)], I(-1))], upd)]
    else:
        st += [X(A(cv, call)), WH(["and", B(">=", cv, I(0)), B("<", i, I(lim))], upd + [X(A(cv, call))])]
    return st + [X(C("printf", S("%d %d\n"), i, h)), X(C("pi", cv))]


class InSh(ShBase):
    """C05: every way of reading characters."""
    acts = [("a_get", 6), ("a_line", 4), ("a_drain", 2), ("a_read", 4), ("a_fgetc", 5), ("a_open", 3), ("a_close", 1), ("a_eof", 1)]

    def setup(self):
        out = super().setup()
        self.names = self.f("names", ["a"])
        self.std = self.f("std", "getchar")          # how this program reads standard input
        out.append(["decl", "c", "int", I(0)])
        out.append(["decl", "r", "int", I(0)])
        self.fps = ["fp%d" % i for i in range(self.c(3))]
        self.fds = ["rd%d" % i for i in range(self.c(3))]
        for nm in self.fps:
            out.append(["decl", nm, ("p", "int"), I(0)])
        for nm in self.fds:
            out.append(["decl", nm, "int", I(-1)])
        self.bufs = []
        n = self.pick([16, 8, 40, 5])
        self.gvar("gb", ("a", "char", n), None)
        self.bufs.append(("gb", n))
        if self.c(2):
            n = self.pick([9, 64, 21, 300])
            out.append(["decl", "hb", ("p", "char"), C("malloc", I(n))])
            self.bufs.append(("hb", n))
        for b, n in self.bufs:
            i = self.fresh("z")
            out.append(BL([["decl", i, "int", I(0)], WH(B("<", V(i), I(n)), [X(A(IDX(V(b), V(i)), I(46))), X(["inc", True, 1, V(i)])])]))
        self.gvar("line", ("a", "char", 40), None)
        if self.c(3) == 2:
            self.func("nextc", "int", [], [["return", self.stdcall0()]])
            self.nextc = True
        else:
            self.nextc = False
        if self.c(3) == 2:
            self.func("rd", "int", [("f", "int"), ("p", ("p", "char")), ("k", "int")], [["return", C("read", V("f"), V("p"), V("k"))]])
            self.rd = ["read", "rd"]
        else:
            self.rd = ["read"]
        self.endstmts = []
        for f in self.fps:
            self.endstmts += [IF(V(f), drain(self.c, 9000, C("fgetc", V(f)), self.fresh("k"), self.c(2)))]
        for f in self.fds:
            self.endstmts += [IF(B(">=", V(f), I(0)), self.readall(V(f)))]
        if self.std == "getchar":
            self.endstmts += [BL(drain(self.c, 9000, C("getchar"), self.fresh("k"), self.c(2)))]
        elif self.std == "read":
            self.endstmts += [BL(self.readall(I(0)))]
        self.endstmts += self.eofs()
        return out

    def eofs(self):
        st = []
        for _ in range(self.c(3)):
            if self.std == "getchar":
                st.append(X(C("pi", C("getchar"))))
            elif self.std == "read":
                b, n = self.bufs[0]
                st.append(X(C("pi", C("read", I(0), V(b), I(n)))))
        for f in self.fps:
            st.append(IF(V(f), [X(C("pi", C("fgetc", V(f))))]))
        return st

    def readall(self, f):
        b, n = self.pick(self.bufs)
        m = self.pick([n, n, n - 1, 3])
        t = self.fresh("t")
        return [["decl", t, "int", I(0)], X(A(V("r"), C("read", f, V(b), I(m)))),
                WH(B(">", V("r"), I(0)), [X(A(V(t), V("r"), "+")), X(C("pi", C("sum", V(b), V("r")))), X(A(V("r"), C("read", f, V(b), I(m))))]),
                X(C("printf", S("%d\n"), V(t)))]

    def stdcall0(self):
        return C("getchar") if self.std == "getchar" else I(-1)

    def get(self, call):
        k = self.c(4)
        if k == 0:
            return [X(C("pi", call))]
        if k == 1:
            return [X(A(V("c"), call)), IF(B(">=", V("c"), I(0)), [X(C("putchar", V("c")))], [X(C("pi", V("c")))])]
        if k == 2:
            return [X(C("pi", B("+", B("*", I(2), ["paren", call]), I(1))))]
        return [X(A(V("c"), call)), X(C("pi", V("c")))]

    def a_get(self):
        if self.std == "read":
            return self.a_read()
        if self.std != "getchar":
            return self.a_fgetc()
        return self.get(C("nextc" if self.nextc and self.c(2) else "getchar"))

    def src(self):
        if self.std == "getchar" and (self.c(2) or not self.fps):
            return None, C("getchar")
        if not self.fps:
            return I(0), I(-1)
        f = self.pick(self.fps)
        return V(f), C("fgetc", V(f))

    def a_fgetc(self):
        if not self.fps:
            return self.a_get() if self.std == "getchar" else self.assign()
        f = self.pick(self.fps)
        return [IF(V(f), self.get(C("fgetc", V(f))), self.openf(f) if self.c(2) else None)]

    def openf(self, f):
        return [X(A(V(f), C("fopen", self.path(), S("r"))))]

    def a_open(self):
        k = self.c(2)
        if k == 0 and self.fps:
            f = self.pick(self.fps)
            return [IF(V(f), [X(C("fclose", V(f)))])] + self.openf(f)
        if self.fds:
            f = self.pick(self.fds)
            return [IF(B(">=", V(f), I(0)), [X(C("close", V(f)))]), X(A(V(f), C("open", self.path(), I(0), I(0)))), X(C("pi", V(f)))]
        return self.a_get() if self.std == "getchar" else self.assign()

    def a_close(self):
        if self.fps and self.c(2):
            f = self.pick(self.fps)
            return [IF(V(f), [X(C("fclose", V(f))), X(A(V(f), I(0)))])]
        if self.fds:
            f = self.pick(self.fds)
            return [IF(B(">=", V(f), I(0)), [X(C("close", V(f))), X(A(V(f), I(-1)))])]
        return self.assign()

    def a_read(self):
        """read(fd, buffer + offset, count) and a look at the buffer."""
        b, n = self.pick(self.bufs)
        off = self.pick([0, 0, 1, n - 1])
        m = self.pick([n - off, 1, 0, (n - off) // 2])
        p = V(b) if not off else (B("+", V(b), I(off)) if self.c(2) else ADDR(V(b), I(off)))
        if self.std == "read" and (self.c(2) or not self.fds):
            f, g = I(0), None
        elif self.fds:
            f = V(self.pick(self.fds))
            g = B(">=", f, I(0))
        else:
            return self.assign()
        st = [X(A(V("r"), C(self.pick(self.rd), f, p, I(m)))), X(C("printf", S("<%d>"), V("r")))]
        k = self.c(3)
        if k == 0:
            st += [X(C("write", I(1), V(b), V("r")))] if not off else [X(C("pi", C("sum", V(b), I(n))))]
        elif k == 1:
            st += [X(C("pi", C("sum", V(b), I(n))))]
        return [IF(g, st)] if g else st

    def a_line(self):
        g, rd = self.src()
        i = self.fresh("n")
        body = [["decl", i, "int", I(0)],
                WH(["and", B("<", V(i), I(30)), ["and", B("!=", ["paren", A(V("c"), rd)], ["chr", 10]), B("!=", V("c"), I(-1))]],
                   [X(A(IDX(V("line"), V(i)), V("c"))), X(["inc", True, 1, V(i)])]),
                X(C("write", I(1), V("line"), V(i))), X(C("pi", V("c")))]
        return [IF(g, body)] if g else [BL(body)]

    def a_drain(self):
        g, rd = self.src()
        if self.loop_depth:
            return self.a_fgetc()
        body = drain(self.c, self.pick([3, 20, 300, 1500]), rd, self.fresh("k"), self.c(2))
        return [IF(g, body)] if g else [BL(body)]

    def a_eof(self):
        return self.eofs()


class OutSh(ShBase):
    """C06: every way of writing."""
    acts = [("a_putc", 5), ("a_str", 5), ("a_fmt", 7), ("a_write", 4), ("a_all", 1), ("a_file", 2), ("a_wfile", 2)]

    def setup(self):
        self.feats["putstr"] = 1
        out = super().setup()
        self.rtp = self.f("rt", 0)                     # compiler configured to use the runtime's printf only
        self.gvar("gb", ("a", "char", 24), None)
        i = self.fresh("z")
        m, a = 1 + self.c(255), self.c(256)
        out.append(BL([["decl", i, "int", I(0)], WH(B("<", V(i), I(24)), [X(A(IDX(V("gb"), V(i)), B("&", B("+", B("*", V(i), I(m)), I(a)), I(255)))), X(["inc", True, 1, V(i)])])]))
        self.strs = []
        for _ in range(1 + self.c(3)):
            nm = self.fresh("st")
            s = self.string()
            self.P.globals.append((nm, ("p", "char"), None))
            self.P.order.append(("global", nm))
            out.append(X(A(V(nm), S(s))))
            self.strs.append((nm, len(s), s))
        out.append(["decl", "wf", "int", I(-1)])
        out.append(["decl", "c", "int", I(0)])
        self.names = self.f("names", ["o1"])
        return out

    def string(self, nl=True):
        s = "".join(self.pick(HAZARD + ["\n", "\n", "ab", " "]) for _ in range(self.c(9)))
        if self.c(8) == 7:
            s += "x" * self.pick([15, 16, 17, 255, 256, 260])
            s += self.pick(HAZARD)
        return s if nl else s.rstrip("\n")

    def byte(self):
        k = self.c(8)
        if k < 2:
            return I(self.c(256))
        if k == 2:
            return B("&", self.pexpr(1)[0], I(255))
        if k >= 5:
            # any expression: the code of a character under every operator
            sv, self.nocall = getattr(self, "nocall", False), True
            x = self.fit(self.iexpr(1 + self.c(2)), 0, 255) if k < 7 else self.condbyte()
            self.nocall = sv
            return I(65) if self.last_effects(x[0]) else x[0]
        if k == 3:
            return V("c")
        return ["chr", self.pick([10, 39, 92, 34, 37, 36, 32, 97, 9, 96, 45])]

    def condbyte(self):
        x = ["cond", self.fcond(1), ["chr", self.pick([65, 48, 126])], I(self.c(256))]
        k = self.c(4)
        if k == 1:
            x = ["cond", self.fcond(1), ["chr", 66], ["paren", x]] if self.c(2) else ["cond", self.fcond(1), ["paren", x], ["chr", 66]]
        if k == 2:
            op = self.pick(["|", "^"])
            return B(op, I(self.c(128)), ["paren", x]), 0, 255
        return x, 0, 255

    def strarg(self, nl):
        """A string expression; nl: may end with a newline (known finding C06-trailing-newline)."""
        k = self.c(3)
        ok = [(n, l) for n, l, s in self.strs if nl or not s.endswith("\n")]
        if k == 0 or not ok:
            s = self.string(nl)
            return S(s)
        n, l = self.pick(ok)
        if k == 2 and l:
            o = self.c(l + 1)
            s = [s for a, b, s in self.strs if a == n][0][o:]
            if nl or not s.endswith("\n"):
                return B("+", V(n), I(o)) if self.c(2) else ADDR(V(n), I(o))
        return V(n)

    def a_putc(self):
        k = self.c(4)
        if k == 0:
            return [X(A(V("c"), I(self.c(256)))), X(C("putchar", V("c")))]
        if k == 1:
            n, l, s = self.pick(self.strs)
            if l:
                return [X(C("putchar", IDX(V(n), I(self.c(l)))))]
        return [X(C("putchar", self.byte()))]

    def a_str(self):
        return [X(C("putstr", self.strarg(True)))]

    def a_all(self):
        if self.loop_depth:
            return self.a_putc()
        i = self.fresh("j")
        a = self.c(256)
        n = self.pick([5, 20, 64, 256])
        return [BL([["decl", i, "int", I(a)], WH(B("<", V(i), I(min(a + n, 256))), [X(C("putchar", V(i))), X(["inc", True, 1, V(i)])])])]

    def fmt(self, rt):
        """(format string, arguments); rt: the runtime's printf interprets it."""
        f, args = "", []
        for _ in range(self.c(5)):
            k = self.c(9)
            if k < 2:
                t = self.string().replace("%", "%%")
                f += t
            elif k == 2:
                f += "%%"
            elif k == 3:
                f += "%c"
                if rt and self.c(2):
                    f = f[:-1] + self.pick(["5c", "-4c", "1c", "-1c", "12c"])
                args.append(self.byte())
            elif k == 4:
                w = self.pick(["%s", "%s", "%5s", "%-6s", "%.3s", "%8.2s", "%-4.1s", "%1s", "%.12s", "%20s"])
                plain = w == "%s" and not rt
                f += w
                if plain:
                    args.append(self.strarg(True))
                else:
                    # a precision that cuts the string may leave a newline last, which is kept; only trailing ones of the whole string are lost
                    args.append(self.strarg(False))
            elif k == 5 and (rt or self.shell in ("dash", "bash", "ksh", "zsh")):
                f += self.pick(["%*d", "%.*d", "%-*d"])
                args.append(I(self.c(9)))
                args.append(I(self.pick([0, 5, -7, 123456])))
            else:
                cv = self.pick(["d", "d", "i", "u", "x", "X", "o"])
                fl = ""
                if cv in "di":
                    fl = self.pick(["", "", "+", " ", "0", "-", "-+"])
                elif cv in "xXo":
                    fl = self.pick(["", "", "#", "0", "-", "#0"])
                else:
                    fl = self.pick(["", "", "0", "-"])
                w = self.pick(["", "", "1", "5", "12"])
                if cv in "xX" and self.shell == "ksh":
                    fl = fl.replace("#", "")       # ksh itself prints 0x0 for a zero
                if fl and fl[-1] == "0" and not w:
                    w = "6"
                p = self.pick(["", "", "", ".1", ".3", ".10"])
                if p and "0" in fl:
                    p = ""
                f += "%" + fl + w + p + ("" if rt else self.pick(["", "", "", "", "l", "ll"])) + cv
                if cv in "di":
                    args.append(self.pick([I(0), I(-1), I(42), I(2147483647), I(-2147483647), self.pexpr(1)[0]]))
                else:
                    args.append(self.pick([I(0), I(1), I(255), I(2147483647), B("&", self.pexpr(1)[0], I(4095))]))
            if self.c(2):
                f += self.pick([" ", "-", "\n", "|", "$", "\\", "--", "-x", "a"])
        return f, args

    def a_fmt(self):
        k = self.c(3)
        if k == 2:
            f, args = self.fmt(True)
            nm = self.fresh("f")
            return [BL([["decl", nm, ("p", "char"), S(f)], X(C("printf", V(nm), *args))])]
        f, args = self.fmt(self.rtp)
        return [X(C("printf", S(f), *args))]

    def a_write(self):
        k = self.c(3)
        if k == 0:
            s = self.string()
            return [X(C("write", I(1), S(s), I(self.pick([len(s), len(s) // 2, 0]))))]
        if k == 1:
            n, l, s = self.pick(self.strs)
            o = self.c(l + 1)
            return [X(C("write", I(1), B("+", V(n), I(o)), I(self.c(l - o + 1))))]
        o = self.c(24)
        return [X(A(IDX(V("gb"), I(self.c(24))), self.byte())), X(C("write", I(1), ADDR(V("gb"), I(o)), I(self.c(25 - o))))]

    def a_file(self):
        return [IF(B(">=", V("wf"), I(0)), [X(C("close", V("wf"))), X(A(V("wf"), I(-1)))], [X(A(V("wf"), C("open", self.path(), I(1 + self.c(2)), I(511)))), X(C("pi", V("wf")))])]

    def a_wfile(self):
        o = self.c(24)
        n, l, s = self.pick(self.strs)
        st = [X(C("pi", C("write", V("wf"), ADDR(V("gb"), I(o)), I(self.c(25 - o)))))] if self.c(2) else [X(C("write", V("wf"), V(n), I(self.c(l + 1))))]
        return [IF(B(">=", V("wf"), I(0)), st, self.a_file() if self.c(3) == 2 else None)]


class FdSh(ShBase):
    """C07: histories of opens, reads, writes and closes over many descriptors."""
    acts = [("a_ropen", 5), ("a_wopen", 4), ("a_read", 6), ("a_fgetc", 4), ("a_write", 6), ("a_close", 3), ("a_fclose", 1), ("a_fopen", 3), ("a_back", 1), ("a_many", 1), ("a_std", 1)]

    def setup(self):
        out = super().setup()
        self.names = self.f("names", ["a"])
        self.rds = ["r%d" % i for i in range(1 + self.c(4))]
        self.wrs = ["w%d" % i for i in range(1 + self.c(3))]
        self.fps = ["fp%d" % i for i in range(self.c(3))]
        # each writer has files of its own, so that nothing is read while it is being written
        self.outs = {w: ["o%s%d" % (w, j) for j in range(1 + self.c(2))] for w in self.wrs}
        for nm in self.rds + self.wrs:
            if self.c(2):
                self.gvar(nm, "int", I(-1))
            else:
                out.append(["decl", nm, "int", I(-1)])
        for nm in self.fps:
            out.append(["decl", nm, ("p", "int"), I(0)])
        out.append(["decl", "r", "int", I(0)])
        self.gvar("gb", ("a", "char", 64), None)
        out.append(BL([["decl", "z", "int", I(0)], WH(B("<", V("z"), I(64)), [X(A(IDX(V("gb"), V("z")), B("+", I(33), V("z")))), X(["inc", True, 1, V("z")])])]))
        for f in self.rds:
            if self.c(2):
                out += [X(A(V(f), C("open", self.path(), I(0), I(0)))), X(C("pi", V(f)))]
        self.endstmts = [IF(B(">=", V(f), I(0)), [X(C("pi", C("read", V(f), V("gb"), I(64)))), X(C("pi", C("sum", V("gb"), I(64))))]) for f in self.rds]
        self.endstmts += [IF(V(f), [X(C("pi", C("fgetc", V(f)))), X(C("pi", C("fgetc", V(f))))]) for f in self.fps]
        return out

    def ok(self, f):
        return B(">=", V(f), I(0))

    def a_ropen(self):
        f = self.pick(self.rds)
        st = [X(A(V(f), C("open", self.path(), I(0), I(0)))), X(C("pi", V(f)))]
        if self.c(3) == 0:
            return [IF(B("<", V(f), I(0)), st)]
        return [IF(self.ok(f), [X(C("close", V(f)))])] + st

    def a_wopen(self):
        f = self.pick(self.wrs)
        st = [X(A(V(f), C("open", self.path(self.outs[f]), I(self.pick([1, 2, 1])), I(self.pick([511, 0, 420]))))), X(C("pi", V(f)))]
        return [IF(self.ok(f), [X(C("close", V(f)))])] + st

    def a_read(self):
        f = self.pick(self.rds)
        n = self.pick([1, 2, 3, 5, 17, 64, 0])
        o = self.c(65 - n)
        st = [X(A(V("r"), C("read", V(f), ADDR(V("gb"), I(o)) if self.c(2) else B("+", V("gb"), I(o)), I(n)))), X(C("pi", V("r")))]
        st += [X(C("write", I(1), B("+", V("gb"), I(o)), V("r")))] if self.c(2) else [X(C("pi", C("sum", V("gb"), I(64))))]
        return [IF(self.ok(f), st, self.a_ropen() if self.c(3) == 2 else None)]

    def a_fgetc(self):
        if not self.fps:
            return self.a_read()
        f = self.pick(self.fps)
        return [IF(V(f), [X(C("pi", C("fgetc", V(f))))] * (1 + self.c(3)))]

    def a_fopen(self):
        if not self.fps:
            return self.a_ropen()
        f = self.pick(self.fps)
        return [IF(V(f), [X(C("fclose", V(f)))]), X(A(V(f), C("fopen", self.path(), S("r"))))]

    def a_fclose(self):
        if not self.fps:
            return self.a_close()
        f = self.pick(self.fps)
        return [IF(V(f), [X(C("fclose", V(f))), X(A(V(f), I(0)))])]

    def a_write(self):
        f = self.pick(self.wrs)
        k = self.c(3)
        if k == 0:
            s = self.pick(["x", "ab\n", "\n", "-n\n", "%s\\n", "q"])
            st = [X(C("write", V(f), S(s), I(len(s))))]
        else:
            n = self.c(9)
            st = [X(C("pi", C("write", V(f), ADDR(V("gb"), I(self.c(64 - n))), I(n))))]
        return [IF(self.ok(f), st, self.a_wopen() if self.c(3) == 2 else None)]

    def a_close(self):
        f = self.pick(self.rds + self.wrs)
        return [IF(self.ok(f), [X(C("pi", C("close", V(f)))), X(A(V(f), I(-1)))])]

    def a_back(self):
        """Closes a written file and reads it back through a fresh descriptor."""
        f = self.pick(self.wrs)
        r = self.pick(self.rds)
        nm = self.outs[f][0]
        return [IF(self.ok(f), [X(C("close", V(f))), X(A(V(f), C("open", S(nm), I(1), I(511)))), X(C("write", V(f), S("back" + nm), I(5 + len(nm) - 2))), X(C("close", V(f))), X(A(V(f), I(-1))),
                                IF(self.ok(r), [X(C("close", V(r)))]), X(A(V(r), C("open", S(nm), I(0), I(0)))), X(A(V("r"), C("read", V(r), V("gb"), I(60)))),
                                X(C("write", I(1), V("gb"), V("r"))), X(C("close", V(r))), X(A(V(r), I(-1)))])]

    def a_many(self):
        """Opens descriptors until few or none are left."""
        if self.loop_depth:
            return self.a_read()
        n = self.pick([3, 5, 7, 8, 9, 11])
        i, d = self.fresh("m"), self.fresh("d")
        st = [["decl", i, "int", I(0)], ["decl", d, "int", I(0)],
              WH(B("<", V(i), I(n)), [X(A(V(d), C("open", self.path(), I(0), I(0)))), X(C("pi", V(d))), X(["inc", True, 1, V(i)])])]
        if self.c(2):
            st += [X(C("close", V(d))), X(C("pi", C("open", self.path(), I(0), I(0))))]
        return [BL(st)]

    def a_std(self):
        """Standard input closed and its number used again."""
        if self.loop_depth or self.f("std_done", 0) or self.c(2):
            return self.a_ropen()
        self.feats["std_done"] = 1
        f = self.pick(self.rds)
        return [X(C("close", I(0))), IF(self.ok(f), [X(C("close", V(f)))]), X(A(V(f), C("open", self.path(), I(0), I(0)))), X(C("pi", V(f)))]


class HeapSh(ShBase):
    """C08: blocks, arrays, strings and the runtime's own buffers side by side."""
    acts = [("a_new", 6), ("a_free", 4), ("a_check", 3), ("a_touch", 2), ("a_glob", 3), ("a_lit", 2), ("a_file", 2), ("a_rec", 1), ("a_ptr", 1), ("a_all", 1)]

    def setup(self):
        self.feats["sumi"] = self.feats["putstr"] = 1
        out = super().setup()
        b, n, s, i = V("b"), V("n"), V("s"), V("i")
        self.func("fill", "void", [("b", ("p", "int")), ("n", "int"), ("s", "int")],
                  [["decl", "i", "int", I(0)], WH(B("<", i, n), [X(A(IDX(b, i), B("+", s, B("*", i, I(7))))), X(["inc", True, 1, i])])])
        self.func("chk", "int", [("b", ("p", "int")), ("n", "int"), ("s", "int")],
                  [["decl", "i", "int", I(0)], ["decl", "bad", "int", I(0)],
                   WH(B("<", i, n), [IF(B("!=", IDX(b, i), B("+", s, B("*", i, I(7)))), [X(["inc", True, 1, V("bad")])]), X(["inc", True, 1, i])]), ["return", V("bad")]])
        self.func("rec", "int", [("d", "int"), ("n", "int")],
                  [["decl", "q", ("p", "int"), C("malloc", n)], ["decl", "x", "int", I(0)], X(C("fill", V("q"), n, V("d"))),
                   IF(B(">", V("d"), I(0)), [X(A(V("x"), C("rec", B("-", V("d"), I(1)), B("+", n, I(1)))))]),
                   X(A(V("x"), C("chk", V("q"), n, V("d")), "+")), X(C("free", V("q"))), ["return", V("x")]])
        self.slots = ["p%d" % j for j in range(2 + self.c(5))]
        for nm in self.slots:
            if self.c(2):
                self.gvar(nm, ("p", "int"), None)
                self.gvar("n" + nm, "int", None)
            else:
                out.append(["decl", nm, ("p", "int"), I(0)])
                out.append(["decl", "n" + nm, "int", I(0)])
        self.garr = []
        for j in range(1 + self.c(4)):
            nm, n = "ga%d" % j, self.pick([4, 16, 30, 1, 7])
            t = self.pick(["char", "int"])
            k = self.c(4)
            init = None
            if k == 2:
                init = ["list", [I(1 + self.c(99)) for _ in range(1 + self.c(n))]]
            elif k == 3 and t == "char" and n > 4:
                init = S("".join(self.pick(HAZARD)[0] for _ in range(self.c(n - 1))))
            self.P.globals.append((nm, ("a", t, n), init, False) if init and init[0] == "list" else (nm, ("a", t, n), init))
            self.P.order.append(("global", nm))
            self.garr.append((nm, n, init, t))
        if self.f("init_arrays", 1):
            for nm, n, init, t in self.garr:
                if init is None:
                    z = self.fresh("z")
                    out.append(BL([["decl", z, "int", I(0)], WH(B("<", V(z), I(n)), [X(A(IDX(V(nm), V(z)), I(0))), X(["inc", True, 1, V(z)])])]))
        self.lits = []
        for j in range(self.c(3)):
            s = "".join(self.pick(HAZARD + ["\n"]) for _ in range(1 + self.c(12)))
            nm = "lt%d" % j
            self.gvar(nm, ("p", "char"), None)
            out.append(X(A(V(nm), S(s))))
            self.lits.append((nm, len(s)))
        out += [X(C("pi", C("sum" if t == "char" else "sumi", V(nm), I(n)))) for nm, n, _, t in self.garr]
        self.names = self.f("names", ["a"])
        out.append(["decl", "fp", ("p", "int"), I(0)])
        self.endstmts = self.a_all()
        return out

    def a_all(self):
        out = []
        for k, p in enumerate(self.slots):
            out.append(IF(V(p), [X(C("pi", C("chk", V(p), V("n" + p), I(k * 1000))))]))
        out += [X(C("pi", C("sum" if t == "char" else "sumi", V(nm), I(n)))) for nm, n, _, t in self.garr]
        out += [X(C("pi", C("sum", V(nm), I(n + 1)))) for nm, n in self.lits]
        return out

    def newof(self, p, n):
        k = self.slots.index(p)
        ne = n if isinstance(n, list) else I(n)
        return [X(A(V("n" + p), ne)), X(A(V(p), C("malloc", V("n" + p) if self.c(2) else ne))), X(C("fill", V(p), V("n" + p), I(k * 1000)))]

    def a_new(self):
        p = self.pick(self.slots)
        n = self.pick([1, 2, 3, 5, 8, 16, 20, 0])
        if self.c(4) == 3:
            vs = self.vars(lambda v: v.kind == "int" and v.t == "int")
            if vs:
                n = B("&", V(self.pick(vs).name), I(15))
        st = self.newof(p, n)
        if self.c(2):
            return [IF(V(p), [X(C("free", V(p)))])] + st
        return st

    def a_free(self):
        p = self.pick(self.slots)
        return [IF(V(p), [X(C("pi", C("chk", V(p), V("n" + p), I(self.slots.index(p) * 1000)))), X(C("free", V(p))), X(A(V(p), I(0)))])]

    def a_check(self):
        p = self.pick(self.slots)
        return [IF(V(p), [X(C("pi", C("chk", V(p), V("n" + p), I(self.slots.index(p) * 1000))))])]

    def a_touch(self):
        p = self.pick(self.slots)
        k = self.slots.index(p) * 1000
        return [IF(B(">", V("n" + p), I(0)), [IF(V(p), [X(A(IDX(V(p), B("-", V("n" + p), I(1))), I(5))), X(C("pi", C("chk", V(p), V("n" + p), I(k)))), X(C("fill", V(p), V("n" + p), I(k)))])])]

    def a_glob(self):
        nm, n, _, t = self.pick(self.garr)
        i = self.c(n) if self.c(3) else n - 1
        return [X(A(IDX(V(nm), I(i)), I(self.c(100)))), X(C("pi", IDX(V(nm), I(self.pick([0, n - 1, i])))))]

    def a_lit(self):
        if not self.lits:
            return self.a_glob()
        nm, n = self.pick(self.lits)
        return [X(C("pi", C("sum", V(nm), I(n + 1))))] + ([X(C("putstr", V(nm)))] if self.c(2) else [])

    def a_file(self):
        """Streams allocate, grow and free buffers of their own."""
        k = self.c(4)
        if k == 0:
            return [IF(V("fp"), [X(C("fclose", V("fp"))), X(A(V("fp"), I(0)))])]
        if k == 1:
            return [IF(["un", "!", V("fp")], [X(A(V("fp"), C("fopen", self.path(), S("r"))))])]
        i = self.fresh("i")
        n = self.pick([1, 3, 30, 1100]) if not self.loop_depth else 2
        return [IF(V("fp"), [["decl", i, "int", I(0)], ["decl", i + "h", "int", I(0)],
                             WH(B("<", V(i), I(n)), [X(A(V(i + "h"), B("&", B("+", B("*", V(i + "h"), I(31)), ["paren", C("fgetc", V("fp"))]), I(32767)))), X(["inc", True, 1, V(i)])]), X(C("pi", V(i + "h")))])]

    def a_rec(self):
        if self.loop_depth:
            return self.a_check()
        return [X(C("pi", C("rec", I(self.c(5)), I(self.c(4)))))]

    def a_ptr(self):
        """A pointer into the middle of a block or array."""
        nm, n, _, t = self.pick(self.garr)
        o = self.c(n)
        q = self.fresh("q")
        return [BL([["decl", q, ("p", t), ADDR(V(nm), I(o)) if self.c(2) else B("+", V(nm), I(o))], X(A(["deref", V(q)], B("+", ["deref", V(q)], I(1)))), X(C("pi", IDX(V(nm), I(o)))),
                    X(C("pi", B("-", V(q), V(nm))))])]


class ArgsSh(ShBase):
    """C09: argument vectors and every way of ending."""
    acts = [("a_arg", 5), ("a_len", 2), ("a_end", 2), ("a_call", 2), ("a_mut", 1), ("a_out", 3)]
    a_arg, a_mut, a_call, a_end = ArgsProg.a_arg, ArgsProg.a_mut, ArgsProg.a_call, ArgsProg.a_end

    def main_params(self):
        return [("argc", "int"), ("argv", ("p", ("p", "char")))] if self.f("args", 1) else []

    def setup(self):
        out = super().setup()
        s, i = V("s"), V("i")
        self.func("show", "void", [("s", ("p", "char"))], [
            ["decl", "i", "int", I(0)],
            WH(B("!=", IDX(s, i), I(0)), [X(C("putchar", IDX(s, i))), X(["inc", True, 1, i])]), X(C("pi", i))])
        self.func("deep", "void", [("d", "int"), ("code", "int")], [
            X(C("pi", V("d"))),
            IF(B("<=", V("d"), I(0)), [X(C("exit", V("code")))]),
            X(C("deep", B("-", V("d"), I(1)), V("code"))), X(C("putchar", I(88)))])
        if self.f("args", 1):
            a = V("a")
            out += [X(C("pi", V("argc"))), ["decl", "a", "int", I(1)],
                    WH(B("<", a, V("argc")), [X(C("show", IDX(V("argv"), a))), X(["inc", True, 1, a])])]
        self.gvar("ga", ("a", "int", 1 + self.c(5)), None)
        self.gvar("gz", "int", None)
        if self.c(2):
            i = self.fresh("q")
            out += [X(C("pi", V("gz")))]
        if self.c(2):
            out += [["decl", "hp", ("p", "char"), C("malloc", I(3))], X(A(IDX(V("hp"), I(1)), I(66))), X(C("putchar", IDX(V("hp"), I(1))))]
        return out

    def status(self):
        return self.pick([I(0), I(1), I(7), I(127), I(255), I(256), I(-1), I(300), I(65536), I(128), I(130), I(2)]) if self.c(3) else self.pexpr(1)[0]

    def a_out(self):
        return [X(C("printf", S(self.string() + "%s\n"), S(self.string())))] if self.c(2) else [X(C("printf", S("%s%d\n"), S(self.string()), V("gz")))]

    def string(self):
        return "".join(self.pick(HAZARD + [" ", "ab", "$(touch pwn)", "`touch pwn`", "*", "?", "$HOME", "~", ";", "&&"]) for _ in range(self.c(5))).replace("%", "%%").rstrip("\n")

    def a_len(self):
        if not self.f("args", 1) or self.loop_depth:
            return self.a_arg()
        i = self.fresh("q")
        return [["decl", i, ("p", ("p", "char")), B("+", V("argv"), I(1))],
                WH(B("!=", V(i), B("+", V("argv"), V("argc"))), [X(C("show", ["deref", V(i)])), X(["inc", False, 1, V(i)])])]

    def program(self, main_extra=None):
        P = super().program()
        nm, rt, ps, body = P.funcs[-1]
        if self.f("void", 0):
            body[-1:] = [X(C("pi", I(9)))]
            P.funcs[-1] = (nm, "void", ps, body)
        else:
            body[-1] = ["return", self.status()]
        return P
