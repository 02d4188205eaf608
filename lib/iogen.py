"""Workload generators for the I/O, heap and start-up properties: programs made
of few plain C constructs around dense sequences of library calls."""
from gen import Gen, Var, I32MAX, I32MIN


def V(n):
    return ["var", n]


def I(n):
    return ["int", n]


def C(fn, *a):
    return ["call", fn, list(a)]


def A(lv, e, op=""):
    return ["asg", op, lv, e]


def X(e):
    return ["expr", e]


def B(op, a, b):
    return ["bin", op, a, b]


def S(s):
    return ["str", s]


def IF(c, a, b=None):
    return ["if", c, ["block", a], ["block", b] if b is not None else None]


def WH(c, body):
    return ["while", c, ["block", body]]


def BL(body):
    return ["block", body]


def IDX(a, i):
    return ["idx", a, i]


def ADDR(a, i):
    return ["addr", ["idx", a, i]]


def NORM(v):
    """r = r < 0 ? -1 : r, for a variable."""
    return IF(B("<", V(v), I(0)), [X(A(V(v), I(-1)))])


QUIET = {n: 0 for n in ("store_elem", "s_switch", "out_str", "call_proc", "decl_ptr", "move_ptr", "walk", "s_goto", "decl_arr", "decl_static", "mat_op",
                        "struct_op", "do_continue", "bump", "test_assign")}


class Base(Gen):
    """Plain programs: a few integer statements, loops and branches, plus self.acts."""
    acts = []

    def __init__(self, choices, dialect="exe", feats=None, size=12, act=3):
        f = dict(QUIET)
        f.update(assign=2, out=1, decl_int=1, s_if=3, s_for=2, s_block=1, structs=0, funcs=0)
        f.update(feats or {})
        f["stmts"] = [("act", 10 * act)]
        super().__init__(choices, dialect, f, size)
        self.pre = []

    def program(self, main_extra=None):
        return super().program(lambda g: g.setup())

    def setup(self):
        return []

    def act(self):
        if self.fname is not None:
            return self.assign()
        tot = []
        for n, w in self.acts:
            tot += [n] * self.f(n, w)
        return getattr(self, tot[self.c(len(tot))])()

    def gvar(self, nm, t, init=None):
        self.P.globals.append((nm, t, init))
        self.P.order.append(("global", nm))

    def iexpr(self, depth=2, test=False):
        return super().iexpr(min(depth, 1), test) if self.f("plain", 1) else super().iexpr(depth, test)


FILES = ["a", "b.txt", "dir/c", "ro", "empty", "new1", "out.bin", "none", "dir", "x y"]


def some_bytes(c, n, lo=0, hi=255):
    """Input contents with the shapes that matter: repeated bytes, lines, binary, extremes."""
    k = c(6)
    if k == 0:
        return bytes((i * 7 + 1) % (hi - lo + 1) + lo for i in range(n))
    if k == 1:
        return bytes(c(hi - lo + 1) + lo for _ in range(n))
    if k == 2:
        w = [10, 97, 98, 32, 9, 48, 92, 39, 34, 127]
        return bytes(max(lo, w[c(len(w))]) for _ in range(n))
    if k == 3:
        w = [0, 255, 128, 127, 26, 4, 10, 13, 1, 254]
        return bytes(min(hi, max(lo, w[c(len(w))])) for _ in range(n))
    if k == 4:
        b = c(hi - lo + 1) + lo
        return bytes([b]) * n
    out = bytearray()
    while len(out) < n:
        out += bytes(97 + c(26) for _ in range(c(9))) + b"\n"
    return bytes(out[:n])


def file_set(c, lo=0, hi=255, cap=40):
    files, modes = {}, {}
    for nm in FILES[:6] + FILES[9:]:
        if nm == "new1":
            continue
        files[nm] = some_bytes(c, c(cap), lo, hi) if nm != "empty" else b""
    modes["ro"] = 0o400
    modes["dir"] = "dir"
    return files, modes


class SysIO(Base):
    """C01: read, write, open, close, lseek, unlink through write(1) only."""
    acts = [("a_open", 4), ("a_read", 7), ("a_write", 5), ("a_close", 2), ("a_seek", 3), ("a_unlink", 1), ("a_copy", 2), ("a_dump", 1), ("a_cond", 2)]

    def helpers(self):
        """pi(n) formats into a local buffer and writes it with one call."""
        P = self.P
        n, b, i = V("n"), V("b"), V("i")
        P.funcs.append(("pi", "void", [("n", "int")], [
            ["decl", "b", ("a", "char", 12), S("")], ["decl", "i", "int", I(12)], ["decl", "s", "int", B("<", n, I(0))],
            IF(["un", "!", V("s")], [X(A(n, B("-", I(0), n)))]),
            X(A(IDX(b, ["inc", True, -1, i]), I(32))),
            ["do", BL([X(A(IDX(b, ["inc", True, -1, i]), B("-", I(48), B("%", n, I(10))))), X(A(n, B("/", n, I(10))))]), B("!=", n, I(0))],
            IF(V("s"), [X(A(IDX(b, ["inc", True, -1, i]), I(45)))]),
            X(C("write", I(1), B("+", b, i), B("-", I(12), i)))]))
        P.order.append(("func", "pi"))

    def setup(self):
        out = []
        self.fds = []
        for i in range(2 + self.c(2)):
            nm = "fd%d" % i
            init = self.pick([0, 0, -1, 1, 7])
            if self.c(2):
                self.gvar(nm, "int", I(init))
            else:
                out.append(["decl", nm, "int", I(init)])
            self.fds.append(nm)
        self.bufs = []
        n = self.pick([16, 8, 40, 5])
        if self.c(3):
            self.gvar("gb", ("a", "char", n), None)
            self.bufs.append(("gb", n))
        if self.c(3):
            n = self.pick([12, 7, 33])
            out.append(["decl", "lb", ("a", "char", n), S("0123456")])
            self.bufs.append(("lb", n))
        if self.c(3) == 2 or not self.bufs:
            n = self.pick([9, 64, 21])
            out.append(["decl", "hb", ("p", "char"), C("malloc", I(n))])
            out.append(["decl", "hi", "int", I(0)])
            out.append(WH(B("<", V("hi"), I(n)), [X(A(IDX(V("hb"), V("hi")), B("+", I(65), B("%", V("hi"), I(26))))), X(["inc", True, 1, V("hi")])]))
            self.bufs.append(("hb", n))
        out.append(["decl", "r", "int", I(0)])
        self.wrapped = self.c(4) == 3
        if self.wrapped:
            self.P.funcs.append(("rd", "int", [("f", "int"), ("p", ("p", "char")), ("k", "int")], [["return", C("read", V("f"), V("p"), V("k"))]]))
            self.P.order.append(("func", "rd"))
        self.endstmts = [x for b, n in self.bufs for x in [X(C("write", I(1), V(b), I(n)))]]
        return out

    def dump(self):
        return []

    def fd(self):
        k = self.c(5)
        if k == 4:
            return I(self.pick([0, 0, 1, 2, 3, 77, -1]))
        return V(self.pick(self.fds))

    def span(self):
        """(buffer expression, count expression) inside one buffer."""
        b, n = self.pick(self.bufs)
        k = self.c(4)
        off = self.c(n + 1) if k else 0
        room = n - off
        cnt = [room, self.c(room + 1), min(1, room), 0][self.c(4)]
        e = V(b) if not off else (B("+", V(b), I(off)) if self.c(2) else ADDR(V(b), I(off)))
        ce = I(cnt)
        if self.c(4) == 3 and room >= 7:
            vs = self.vars(lambda v: v.kind == "int" and v.t == "int")
            if vs:
                v = self.pick(vs)
                ce = B("&", V(v.name), I(7 if room < 15 else 15))
        return e, ce

    def res(self, call):
        """Uses the result of a call, one of several ways."""
        k = self.c(4)
        if k == 0:
            return [X(call)]
        if k == 1:
            return [IF(B("<", call, I(0)), [X(C("pi", I(-1)))], [X(C("pi", I(1)))] if self.c(2) else None)]
        return [X(A(V("r"), call)), NORM("r"), X(C("pi", V("r")))]

    def a_open(self):
        path = self.pick(FILES)
        mac = self.f("mac", 0)
        cr, tr, ap = (0x200, 0x400, 8) if mac else (0o100, 0o1000, 0o2000)
        fl = self.pick([0, 0, 1 | cr | tr, 2 | cr, 1, 1 | cr | ap, 2, 1 | cr])
        pe = S(path)
        call = C("open", pe, I(fl), I(self.pick([0o644, 0, 0o600, 0o777])))
        if not fl & cr:
            call = C("open", pe, I(fl), I(0))
        f = self.pick(self.fds)
        st = [X(A(V(f), call))]
        k = self.c(3)
        if k == 0:
            st += [X(C("pi", B("<", V(f), I(0))))]
        elif k == 1:
            st += [X(A(V("r"), V(f))), NORM("r"), X(C("pi", V("r")))]
        return st

    def a_read(self):
        e, n = self.span()
        st = self.res(C("rd" if self.wrapped and self.c(2) else "read", self.fd(), e, n))
        return st + (self.a_dump() if self.c(3) == 0 else [])

    def a_write(self):
        e, n = self.span()
        return self.res(C("write", self.pick([I(1), self.fd(), self.fd()]), e, n))

    def a_close(self):
        return self.res(C("close", V(self.pick(self.fds))))

    def a_seek(self):
        off = self.pick([0, 1, 5, 100, -1, -3, 1 << 20, I32MAX])
        return self.res(C("lseek", self.fd(), I(off), I(self.pick([0, 1, 2, 0, 3]))))

    def a_unlink(self):
        return self.res(C("unlink", S(self.pick(FILES))))

    def a_dump(self):
        b, n = self.pick(self.bufs)
        return [X(C("write", I(1), V(b), I(n)))]

    def a_copy(self):
        """A read/write loop, bounded."""
        if self.loop_depth:
            return self.a_read()
        e, n = self.span()
        f = self.fd()
        i = self.fresh("k")
        body = [X(C("write", self.pick([I(1), V(self.pick(self.fds))]), e, V("r"))), X(["inc", True, 1, V(i)])]
        if self.c(2):
            t = B(">", ["paren", A(V("r"), C("read", f, e, n))], I(0))
            return [["decl", i, "int", I(0)], WH(["and", B("<", V(i), I(4 + self.c(5))), t], body)]
        return [["decl", i, "int", I(0)], X(A(V("r"), C("read", f, e, n))),
                WH(["and", B(">", V("r"), I(0)), B("<", V(i), I(5))], body + [X(A(V("r"), C("read", f, e, n)))])]

    def a_cond(self):
        e, n = self.span()
        e2, n2 = self.span()
        op = self.pick(["==", "!=", "<", ">"])
        return [IF(["and" if self.c(2) else "or", B(op, C("read", self.fd(), e, n), I(self.c(9))), B(">", C("write", I(1), e2, n2), I(0))],
                   self.act_in(), self.act_in() if self.c(2) else None)]

    def act_in(self):
        if self.fuel <= 0:
            return [X(C("pi", I(5)))]
        self.fuel -= 1
        self.scopes.append([])
        r = self.a_write() if self.c(2) else self.a_read()
        self.scopes.pop()
        return r


class CharIO(Base):
    """C02: getchar/fgetc/putchar/fopen/fclose and write."""
    acts = [("a_getc", 6), ("a_fgetc", 6), ("a_open", 4), ("a_close", 2), ("a_putc", 4), ("a_line", 2), ("a_drain", 2), ("a_write", 2), ("a_eof", 1)]

    def setup(self):
        out = []
        self.fps = ["fp%d" % i for i in range(1 + self.c(3))]
        for nm in self.fps:
            if self.c(2):
                self.gvar(nm, ("p", "int"), None)
            else:
                out.append(["decl", nm, ("p", "int"), I(0)])
        self.path = {}
        out.append(["decl", "c", "int", I(0)])
        self.gvar("line", ("a", "char", 24), None)
        if self.c(2):
            self.P.funcs.append(("nextc", "int", [], [["return", C("getchar")]]))
            self.P.order.append(("func", "nextc"))
            self.gc = ["getchar", "nextc"]
        else:
            self.gc = ["getchar"]
        self.endstmts = []
        for f in self.fps:
            i = self.fresh("e")
            self.endstmts += [IF(V(f), [["decl", i, "int", I(0)], WH(["and", B("<", V(i), I(60)), B("!=", ["paren", A(V("c"), C("fgetc", V(f)))], I(-1))],
                                                                    [X(C("putchar", V("c"))), X(["inc", True, 1, V(i)])])])]
        i = self.fresh("e")
        self.endstmts += [["decl", i, "int", I(0)], WH(["and", B("<", V(i), I(60)), B("!=", ["paren", A(V("c"), C("getchar"))], I(-1))],
                                                       [X(C("putchar", V("c"))), X(["inc", True, 1, V(i)])]), X(C("pi", C("getchar")))]
        return out

    def dump(self):
        return []

    def get(self, call):
        k = self.c(4)
        if k == 0:
            return [X(C("pi", call))]
        if k == 1:
            return [X(A(V("c"), call)), IF(B(">=", V("c"), I(0)), [X(C("putchar", V("c")))], [X(C("pi", V("c")))])]
        if k == 2:
            return [X(C("pi", B("+", B("*", I(2), ["paren", call]), I(1))))]
        return [X(A(V("c"), call)), X(C("pi", V("c")))]

    def a_getc(self):
        return self.get(C(self.pick(self.gc)))

    def a_fgetc(self):
        f = self.pick(self.fps)
        return [IF(V(f), self.get(C("fgetc", V(f))), self.a_open_of(f) if self.c(2) else None)]

    def a_open_of(self, f):
        return [X(A(V(f), C("fopen", S(self.pick(FILES)), S("r")))), X(C("pi", B("==", V(f), I(0)) if self.c(2) else ["cond", V(f), I(1), I(0)]))]

    def a_open(self):
        f = self.pick(self.fps)
        if self.c(3):
            return [IF(["un", "!", V(f)], self.a_open_of(f), [X(C("fclose", V(f)))] + self.a_open_of(f) if self.c(2) else None)]
        return [IF(V(f), [X(C("fclose", V(f)))])] + self.a_open_of(f)

    def a_close(self):
        f = self.pick(self.fps)
        return [IF(V(f), [X(C("fclose", V(f))), X(A(V(f), I(0)))])]

    def a_putc(self):
        k = self.c(4)
        if k == 0:
            vs = self.vars(lambda v: v.kind == "int" and v.t == "int")
            if vs:
                return [X(C("putchar", B("&", V(self.pick(vs).name), I(255))))]
        if k == 1:
            return [X(A(V("c"), I(self.c(256)))), X(C("putchar", V("c")))]
        return [X(C("putchar", I(self.c(256))))] + ([X(C("putchar", ["chr", 10]))] if k == 3 else [])

    def a_write(self):
        return [X(C("write", I(1), S(self.pick(["ab", "x\ny", "q"])), I(1 + self.c(1))))]

    def src(self):
        """(guard or None, read expression)"""
        if self.c(2):
            return None, C("getchar")
        f = self.pick(self.fps)
        return V(f), C("fgetc", V(f))

    def a_line(self):
        """Reads a line into a buffer and prints it."""
        g, rd = self.src()
        i = self.fresh("n")
        body = [["decl", i, "int", I(0)],
                WH(["and", B("<", V(i), I(20)), ["and", B("!=", ["paren", A(V("c"), rd)], ["chr", 10]), B("!=", V("c"), I(-1))]],
                   [X(A(IDX(V("line"), ["inc", False, 1, V(i)]), V("c")))]),
                X(C("write", I(1), V("line"), V(i))), X(C("pi", V("c")))]
        return [IF(g, body)] if g else [BL(body)]

    def a_drain(self):
        g, rd = self.src()
        i = self.fresh("n")
        lim = self.pick([3, 10, 200])
        body = [["decl", i, "int", I(0)], X(A(V("c"), rd)),
                WH(["and", B(">=", V("c"), I(0)), B("<", V(i), I(lim))], [X(C("putchar", V("c"))), X(A(V("c"), rd)), X(["inc", True, 1, V(i)])]), X(C("pi", V("c")))]
        if self.loop_depth:
            return self.a_getc()
        return [IF(g, body)] if g else [BL(body)]

    def a_eof(self):
        return [X(C("pi", C("getchar"))), X(C("pi", C("getchar")))]


class HeapProg(Base):
    """C03: histories of malloc, free, fill and verify."""
    acts = [("a_new", 6), ("a_free", 2), ("a_check", 3), ("a_touch", 2), ("a_big", 1), ("a_glob", 2)]

    def setup(self):
        out = []
        P = self.P
        b, n, s, i = V("b"), V("n"), V("s"), V("i")
        # fill(b, n, s) and chk(b, n, s): every byte of a small block, both ends and some middle bytes of a big one
        for nm in ("fill", "chk"):
            if nm == "fill":
                act = lambda off: X(A(IDX(b, off), B("&", B("+", s, B("*", off, I(7))), I(127))))
                pre, post = [], []
            else:
                act = lambda off: IF(B("!=", IDX(b, off), B("&", B("+", s, B("*", off, I(7))), I(127))), [X(["inc", True, 1, V("bad")])])
                pre, post = [["decl", "bad", "int", I(0)]], [["return", V("bad")]]
            P.funcs.append((nm, "void" if nm == "fill" else "int", [("b", ("p", "char")), ("n", "int"), ("s", "int")], pre + [
                ["decl", "i", "int", I(0)],
                WH(B("<", i, n), [act(i), X(A(i, I(1), "+")), IF(["and", B("==", i, I(40)), B(">", n, I(120))], [X(A(i, B("-", n, I(40))))])])] + post))
            P.order.append(("func", nm))
        self.blocks = []
        k = 2 + self.c(5)
        self.slots = ["p%d" % j for j in range(k)]
        for nm in self.slots:
            if self.c(2):
                self.gvar(nm, ("p", "char"), None)
                self.gvar("n" + nm, "int", None)
            else:
                out.append(["decl", nm, ("p", "char"), I(0)])
                out.append(["decl", "n" + nm, "int", I(0)])
        self.garr = []
        for j in range(1 + self.c(3)):
            nm, n = "ga%d" % j, self.pick([4, 16, 40, 1, 7])
            t = self.pick(["char", "int", "char"])
            w = n * (4 if t == "int" else 1)
            if self.c(3) == 2:
                self.P.globals.append((nm, ("a", t, n), ["list", [I(1 + self.c(9)) for _ in range(1 + self.c(n))]], False))
                self.P.order.append(("global", nm))
            else:
                self.gvar(nm, ("a", t, n), None)
            self.garr.append((nm, n, t))
        if self.c(2):
            self.gvar("gbig", ("a", "char", self.pick([5000, 70000, 300000])), None)
            self.garr.append(("gbig", self.P.globals[-1][1][2], "char"))
        out.append(["decl", "lo", ("a", "char", 16), S("stack")])
        for nm, n, t in self.garr:
            out += self.zeros(nm, n)
        self.garr.append(("lo", 16, "char"))
        self.endstmts = self.check_all()
        return out

    def zeros(self, nm, n):
        i = self.fresh("z")
        return [["decl", i, "int", I(0)], ["decl", i + "s", "int", I(0)],
                WH(B("<", V(i), I(n)), [X(A(V(i + "s"), IDX(V(nm), V(i)), "+")), X(A(V(i), I(1 if n < 1000 else n // 200), "+"))]), X(C("pi", V(i + "s")))]

    def dump(self):
        return []

    def check_all(self):
        out = []
        for k, p in enumerate(self.slots):
            out.append(IF(V(p), [X(C("pi", C("chk", V(p), V("n" + p), I(k * 31))))]))
        return out

    def newof(self, p, n):
        k = self.slots.index(p)
        ne = n if isinstance(n, list) else I(n)
        return [X(A(V("n" + p), ne)), X(A(V(p), C("malloc", V("n" + p) if self.c(2) else ne))), X(C("fill", V(p), V("n" + p), I(k * 31)))]

    def a_new(self):
        p = self.pick(self.slots)
        k = self.c(5)
        n = self.pick([1, 4, 8, 16, 3, 7, 100, 33])
        if k == 4:
            n = self.pick([1000, 4096, 65536, 100000])
        elif k == 3:
            vs = self.vars(lambda v: v.kind == "int" and v.t == "int")
            if vs:
                n = B("&", V(self.pick(vs).name), I(63))
        return self.newof(p, n)

    def a_free(self):
        p = self.pick(self.slots)
        return [IF(V(p), [X(C("pi", C("chk", V(p), V("n" + p), I(self.slots.index(p) * 31)))), X(C("free", V(p))), X(A(V(p), I(0)))])]

    def a_check(self):
        p = self.pick(self.slots)
        return [IF(V(p), [X(C("pi", C("chk", V(p), V("n" + p), I(self.slots.index(p) * 31))))])] if self.c(3) else self.check_all()

    def a_touch(self):
        """Overwrites a block through an int or char pointer, then refills."""
        p = self.pick(self.slots)
        return [IF(B(">", V("n" + p), I(0)), [IF(V(p), [X(C("fill", V(p), V("n" + p), I(5 + self.c(20)))), X(C("fill", V(p), V("n" + p), I(self.slots.index(p) * 31)))])])]

    def a_glob(self):
        nm, n, t = self.pick(self.garr)
        i = self.c(n) if self.c(3) else n - 1
        return [X(A(IDX(V(nm), I(i)), I(self.c(100)))), X(C("pi", IDX(V(nm), I(self.pick([0, n - 1, i])))))]

    def a_big(self):
        """Around the heap limit: 'room' is the size of the heap, 'used' what the program has taken."""
        if self.loop_depth or not self.f("big", 1):
            return self.a_new()
        H = self.f("heap", 104857600)
        p = self.pick(self.slots)
        n = self.pick([H // 2, H - 100, H - 8192, H, H + 1, H * 2, I32MAX, H - 1, 1 << 24, -1, -4, I32MIN + 1, -H, H // 3, -100])
        if self.c(2):
            n -= self.c(64)
            n = max(n, I32MIN + 1)
        return self.newof(p, n)


class ArgsProg(Base):
    """C04: argument vectors and every way of ending."""
    acts = [("a_arg", 4), ("a_len", 2), ("a_end", 2), ("a_call", 2), ("a_mut", 1)]

    def main_params(self):
        return [("argc", "int"), ("argv", ("p", ("p", "char")))] if self.f("args", 1) else []

    def setup(self):
        P = self.P
        s, i = V("s"), V("i")
        P.funcs.append(("show", "void", [("s", ("p", "char"))], [
            ["decl", "i", "int", I(0)],
            WH(IDX(s, i), [X(C("putchar", B("&", IDX(s, i), I(255)))), X(["inc", True, 1, i])]), X(C("pi", i))]))
        P.funcs.append(("deep", "void", [("d", "int"), ("code", "int")], [
            ["decl", "loc", ("a", "int", 3), ["list", [I(1), I(2), I(3)]]],
            X(C("pi", V("d"))),
            IF(B("<=", V("d"), I(0)), [X(C("exit", V("code")))]),
            WH(B("==", IDX(V("loc"), I(1)), I(2)), [X(C("deep", B("-", V("d"), I(1)), V("code"))), X(A(IDX(V("loc"), I(1)), I(0)))]),
            X(C("putchar", I(88)))]))
        P.order += [("func", "show"), ("func", "deep")]
        out = []
        if self.f("args", 1):
            a = V("a")
            out += [X(C("pi", V("argc"))), ["decl", "a", "int", I(0)],
                    WH(B("<", a, V("argc")), [X(C("show", IDX(V("argv"), a))), X(["inc", True, 1, a])]),
                    X(C("pi", B("==", IDX(V("argv"), V("argc")), I(0)))) if not self.sh else ["empty"]]
        return out

    def status(self):
        return self.pick([I(0), I(1), I(7), I(127), I(255), I(256), I(-1), I(300), I(65536), I(I32MIN + 1)]) if self.c(3) else self.full(1)[0]

    def a_arg(self):
        if not self.f("args", 1):
            return self.out()
        i = self.c(4)
        return [IF(B(">", V("argc"), I(i)), [X(C("show", IDX(V("argv"), I(i)))) if self.c(3) else X(C("show", ["deref", B("+", V("argv"), I(i))]))])]

    def a_len(self):
        if not self.f("args", 1):
            return self.out()
        i = self.fresh("q")
        return [["decl", i, ("p", ("p", "char")), V("argv")],
                WH(B("!=", V(i), B("+", V("argv"), V("argc"))), [X(C("show", ["deref", V(i)])), X(["inc", False, 1, V(i)])])] if not self.loop_depth else self.a_arg()

    def a_mut(self):
        """Arguments are writable memory of their own."""
        if not self.f("args", 1):
            return self.out()
        return [IF(B(">", V("argc"), I(1)), [IF(IDX(IDX(V("argv"), I(1)), I(0)), [X(A(IDX(IDX(V("argv"), I(1)), I(0)), I(90)))])]),
                X(C("show", IDX(V("argv"), I(0))))]

    def a_call(self):
        return [IF(self.fcond(1), [X(C("deep", I(self.c(5)), self.status()))])]

    def a_end(self):
        k = self.c(3)
        if k == 0 and self.f("ret", 1):
            return [IF(self.fcond(1), [["return", self.status()]] if not self.f("void", 0) else [["return", None]])]
        return [IF(self.fcond(1), [X(C("exit", self.status()))])]

    def program(self, main_extra=None):
        P = super().program()
        nm, rt, ps, body = P.funcs[-1]
        k = self.f("ending", 0)
        if self.f("void", 0):
            body[-1:] = [X(C("pi", I(9)))]
            P.funcs[-1] = (nm, "void", ps, body)
        else:
            body[-1] = ["return", self.status()]
        return P
