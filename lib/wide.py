"""Generator of programs full of conversions: every integer type of the target,
values over their whole range, implicit conversions in assignments, arguments,
results and operators, unsigned wrap-around, pointer differences of arrays of
structs of any size. Adds to gen.Gen; native targets only."""
import gen
from gen import Gen, Var, I32MIN, I32MAX

BOUNDS = {"char": (-128, 127), "uchar": (0, 255), "short": (-32768, 32767), "ushort": (0, 65535), "int": (I32MIN, I32MAX), "uint": (0, 2 ** 32 - 1),
          "llong": (-2 ** 63, 2 ** 63 - 1), "ullong": (0, 2 ** 64 - 1)}
UNS = {"char": "uchar", "short": "ushort", "int": "uint", "llong": "ullong"}
EDGES = [0, 1, 2, 3, 7, 10, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 32767, 32768, 40000, 65535, 65536, 70000, 16777216, I32MAX - 1, I32MAX,
         2 ** 31, 2 ** 31 + 1, 3000000000, 2 ** 32 - 2, 2 ** 32 - 1]
EDGES64 = [2 ** 32, 2 ** 32 + 1, 2 ** 33 - 1, 10 ** 12, 2 ** 40 + 5, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 21474836481, 99999999999]


def promote(t):
    return t if t in ("int", "uint", "llong", "ullong") else "int"


def usual(a, b):
    a, b = promote(a), promote(b)
    for t in ("ullong", "llong", "uint"):
        if t in (a, b):
            return t
    return "int"


def conv(lo, hi, t):
    a, b = BOUNDS[t]
    return (lo, hi) if a <= lo and hi <= b else (a, b)


def bits(t):
    return 64 if t in ("llong", "ullong") else 32


class Wide(Gen):
    """An expression is (ast, lo, hi, type), as in gen.Gen; the bounds are those of the mathematical value."""
    wres = None         # variable with a side effect in the current full expression
    wlocal = False
    wroot = None

    def wtypes(self):
        return ["uint", "int", "uchar", "char", "short", "ushort"] + (["llong", "ullong"] if self.f("x64", 0) else [])

    # ---- leaves
    def wlit(self, t=None):
        es = EDGES + (EDGES64 if self.f("x64", 0) else [])
        if t:
            es = [v for v in es if v <= BOUNDS[t][1]]
        k = self.c(4)
        v = self.c(20) if k == 0 else self.pick(es) if k < 3 else self.c(1 << 16) * self.pick([1, 3, 65537 if not t or bits(t) == 64 or t == "uint" else 1])
        if t and v > BOUNDS[t][1]:
            v = BOUNDS[t][1]
        if v > 2 ** 32 - 1:
            lt = "llong" if v < 2 ** 63 and self.c(3) else "ullong"
        elif v > I32MAX:
            lt = "uint" if not self.f("x64", 0) or self.c(3) else self.pick(["llong", "ullong"])
        else:
            lt = self.pick(["int", "int", "int", "int", "int", "uint"] + (["llong", "ullong"] if self.f("x64", 0) else []))
        e = ["lit", v, lt, self.c(12)]
        if lt in ("int", "llong") and self.c(4) == 3:
            return (["un", "-", e], -v, -v, lt)
        return (e, v, v, lt)

    def wvars(self):
        vs = self.vars(lambda v: v.kind in ("wide", "warr", "wstruct") and v is not self.wres)
        if self.wlocal:
            vs = [v for v in vs if v in self.scopes[-1] or v.loc == "w"]
        return vs

    def wlval(self, v, ix=True):
        """An lvalue in v: (ast, type)."""
        V = ["var", v.name]
        if v.kind == "wide":
            return V, v.t
        if v.kind == "wstruct":
            f, t = self.pick(v.region)
            if t == "arr":
                t, f = "uchar", f
                return ["idx", ["fld", V, f], ["lit", self.c(4), "int", 0]], "uchar"
            if self.c(4) == 3:
                return ["arrow", ["paren", ["addr", V]], f], t
            return ["fld", V, f], t
        t, n = v.region
        if not ix or self.c(2):
            i = ["lit", self.c(n), "int", 0]
        else:
            i = ["bin", "&", self.wexpr(1)[0], ["lit", n - 1, "int", 0]]
        k = self.c(6)
        if k == 3:
            return ["deref", ["paren", ["bin", "+", V, i]]], t
        if k == 4:
            return ["idx", ["paren", i], V], t
        if k == 5:
            return ["deref", ["addr", ["idx", V, i]]], t
        return ["idx", V, i], t

    def wleaf(self):
        k = self.c(12)
        vs = self.wvars()
        if k < 7 and vs:
            e, t = self.wlval(self.pick(vs), self.c(3) == 2)
            return (e,) + BOUNDS[t] + (t,)
        if k == 7 and not self.wlocal:
            vs = self.vars(lambda v: v.kind == "int" and v.name not in self.used)
            if vs:
                v = self.pick(vs)
                return (["var", v.name],) + BOUNDS[v.t] + (v.t,)
        if k == 8 and self.P.consts:
            n = self.pick(sorted(self.P.consts))
            v = self.P.consts[n]
            return (["cst", n], v, v, "int")
        if k == 9:
            ch = self.pick([97, 48, 10, 0, 126])
            return (["chr", ch], ch, ch, "int")
        if k == 10 and not self.wlocal:
            x = self.wptr()
            if x:
                return x
        if k == 11:
            return self.wsizeof()
        return self.wlit()

    def wsizeof(self):
        k = self.c(5)
        if k == 0:
            e = ["sizeof", self.pick(self.wtypes())]
        elif k == 1:
            e = ["sizeofe", self.pick([["chr", 65], ["str", "hello"], ["str", ""], ["lit", 5, "int", 0], ["lit", 5, "uint", 1]])]
        elif k == 2:
            vs = self.vars(lambda v: v.kind in ("warr", "wstruct", "wrec", "wide"))
            if not vs:
                return self.wlit()
            v = self.pick(vs)
            e = ["var", v.name]
            if v.kind == "warr" and self.c(3) == 2:
                e = self.pick([["bin", "+", e, ["lit", 1, "int", 0]], ["deref", e], ["addr", ["idx", e, ["lit", 1, "int", 0]]]])
            e = ["sizeofe", e]
        else:
            sv, self.wres = self.wres, None
            sl, self.wlocal = self.wlocal, self.wlocal
            e = ["sizeofe", self.wexpr(1)[0]]
            self.wres, self.wlocal = sv, sl
        return (["cast", "int", e], 0, 4096, "int")

    def wptr(self):
        """Difference or comparison of two pointers into the same array."""
        vs = self.vars(lambda v: v.kind in ("warr", "wrec"))
        if not vs:
            return None
        v = self.pick(vs)
        n = v.region[1]

        def p():
            i = ["lit", self.c(n), "int", 0] if self.c(2) else ["bin", "&", self.wexpr(0)[0], ["lit", (1 << (n.bit_length() - 1)) - 1, "int", 0]]
            V = ["var", v.name]
            k = self.c(3)
            return ["addr", ["idx", V, i]] if k == 0 else ["paren", ["bin", "+", V, i]] if k == 1 else ["paren", ["bin", "+", i, V]]
        a, b = p(), p()
        if self.c(2):
            return (["bin", self.pick(self.CMP), a, b], 0, 1, "int")
        d = ["paren", ["bin", "-", a, b]]
        return (["cast", "int", d] if self.f("cast_diff", 0) else d, -n, n, "int")

    # ---- operators
    def wcast(self, x, t):
        lo, hi = conv(x[1], x[2], t)
        return (["cast", t, ["paren", x[0]]], lo, hi, t)

    def wbin(self, op, x, y):
        t = usual(x[3], y[3])
        a, b = conv(x[1], x[2], t), conv(y[1], y[2], t)
        if op in self.CMP:
            return (["bin", op, x[0], y[0]], 0, 1, "int")
        if op in "/%" and b[0] <= 0 <= b[1]:
            y = (["paren", ["bin", "|", y[0], ["lit", 1, "int", 0]]],) + self.bitrange(y[1], y[2], 1, 1, promote(y[3])) + (promote(y[3]),)
            b = conv(y[1], y[2], t)
            if b[0] == 0:
                b = (1, b[1])
        if op == "+":
            lo, hi = a[0] + b[0], a[1] + b[1]
        elif op == "-":
            lo, hi = a[0] - b[1], a[1] - b[0]
        elif op == "*":
            ps = [p * q for p in a for q in b]
            lo, hi = min(ps), max(ps)
        elif op == "/":
            m = max(abs(a[0]), abs(a[1]))
            lo, hi = (-m if a[0] < 0 or b[0] < 0 else 0), m
            if b[0] > 0 or b[1] < -1:
                hi = min(hi, BOUNDS[t][1])
        elif op == "%":
            m = max(abs(b[0]), abs(b[1])) - 1
            lo, hi = (-m if a[0] < 0 else 0), (m if a[1] > 0 else 0)
            if a[0] == BOUNDS[t][0] and a[0] < 0 and b[0] <= -1 <= b[1]:
                hi = BOUNDS[t][1] + 1       # INT_MIN % -1
        else:
            lo, hi = self.bitrange(a[0], a[1], b[0], b[1], t)
        L, H = BOUNDS[t]
        if lo < L or hi > H:
            if t in ("uint", "ullong"):
                lo, hi = L, H
            else:
                return self.wbin(op, self.wcast(x, UNS[t]), y)
        return (["bin", op, x[0], y[0]], lo, hi, t)

    @staticmethod
    def bitrange(a, b, c, d, t):
        m = 1
        while m - 1 < max(abs(a), abs(b), abs(c), abs(d)):
            m *= 2
        return (0, min(m - 1, BOUNDS[t][1])) if a >= 0 and c >= 0 else (max(-m, BOUNDS[t][0]), min(m - 1, BOUNDS[t][1]))

    def wshift(self, op, x, y):
        t = promote(x[3])
        n = bits(t)
        y = (["paren", ["bin", "&", y[0], ["lit", n - 1, "int", self.c(3)]]], 0, n - 1, "int") if not 0 <= y[1] <= y[2] < n else y
        if op == ">>":
            return (["bin", ">>", x[0], y[0]], min(x[1], 0), max(x[2], 0), t)
        if t in ("int", "llong") and (x[1] < 0 or x[2] << y[2] > BOUNDS[t][1]):
            x, t = self.wcast(x, UNS[t]), UNS[t]
        lo, hi = 0, x[2] << y[2]
        return (["bin", "<<", x[0], y[0]], 0, min(hi, BOUNDS[t][1]), t)

    def wexpr(self, d=2):
        if d <= 0 or self.c(6) == 0:
            return self.wleaf()
        d -= 1
        k = self.c(18)
        if k < 5:
            return self.wbin("+-*"[self.c(3)], self.wexpr(d), self.wexpr(d))
        if k == 5:
            return self.wbin("/%"[self.c(2)], self.wexpr(d), self.wexpr(d))
        if k == 6:
            return self.wbin("&|^"[self.c(3)], self.wexpr(d), self.wexpr(d))
        if k in (7, 8):
            return self.wshift(["<<", ">>"][self.c(2)], self.wexpr(d), self.wexpr(d) if self.c(2) else (["lit", self.c(32), "int", 0], 0, 31, "int"))
        if k in (9, 10):
            return self.wbin(self.pick(self.CMP), self.wexpr(d), self.wexpr(d))
        if k == 11:
            op = self.pick("-~!+")
            x = self.wexpr(d)
            t = promote(x[3])
            if op == "!":
                return (["un", "!", x[0]], 0, 1, "int")
            if op == "+":
                return (["un", "+", x[0]], x[1], x[2], t)
            if op == "-" and t in ("int", "llong") and x[1] == BOUNDS[t][0]:
                x, t = self.wcast(x, UNS[t]), UNS[t]
            lo, hi = (-x[2], -x[1]) if op == "-" else (~x[2], ~x[1])
            return (["un", op, x[0]],) + conv(lo, hi, t) + (t,)
        if k in (12, 13):
            return self.wcast(self.wexpr(d), self.pick(self.wtypes()))
        if k == 14:
            c, x, y = self.wcond(d), self.wexpr(d), self.wexpr(d)
            t = usual(x[3], y[3])
            a, b = conv(x[1], x[2], t), conv(y[1], y[2], t)
            return (["cond", c, x[0], y[0]], min(a[0], b[0]), max(a[1], b[1]), t)
        if k == 15 and self.wfuncs:
            f, ret, ps = self.pick(self.wfuncs)
            return (["call", f, [self.wexpr(d)[0] for _ in ps]],) + BOUNDS[ret] + (ret,)
        if k == 16:
            return (self.wcond(d, True), 0, 1, "int")
        if self.wres is not None and not self.wused:
            self.wused = True
            return self.weffect(self.wres)
        x = self.wexpr(d)
        return (["paren", ["comma", self.wleaf()[0], x[0]]],) + x[1:]

    wfuncs = ()
    wused = False

    def weffect(self, v):
        t, V = v.t, ["var", v.name]
        if self.c(2) and t not in ("int", "llong"):
            return (["inc", self.c(2), self.c(2) * 2 - 1, V],) + BOUNDS[t] + (t,)
        op, e = self.wop(t, V)
        return (["asg", op, V, e],) + BOUNDS[t] + (t,)

    def wop(self, t, L, d=1):
        """Operator and right operand of a compound assignment to an lvalue of type t."""
        op = self.pick(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
        x = (L,) + BOUNDS[t] + (t,)
        y = self.wexpr(d)
        if op in ("<<", ">>"):
            n = bits(promote(t))
            if op == "<<" and t in ("char", "short", "int", "llong"):
                op = ">>"
            lim = 15 if op == "<<" and t in ("uchar", "ushort") else n - 1
            return op, ["bin", "&", y[0], ["lit", lim, "int", 0]]
        z = self.wbin(op, x, y)
        a, b = z[0][2], z[0][3]
        if a is not L:      # the left operand had to be converted: convert the right one instead
            u = UNS[usual(t, y[3])]
            b = ["cast", u, ["paren", b]]
        return op, b

    def wcond(self, d, val=False):
        k = self.c(5 if d > 0 else 2)
        if k == 0 and not val:
            return self.wexpr(d)[0]
        if k <= 2 and not val:
            return self.wbin(self.pick(self.CMP), self.wexpr(d), self.wexpr(d))[0]
        if k == 3:
            return ["un", "!", self.wexpr(d)[0]]
        return [self.pick(["and", "or"]), self.wcond(d - 1), self.wcond(d - 1)]

    def wfull(self, d=2, root=None):
        """A full expression, with at most one side effect, on a variable not used elsewhere in it."""
        self.wbegin(root)
        return self.wexpr(d)

    def wbegin(self, root=None):
        self.wres, self.wused = None, False
        if self.c(3) == 2:
            vs = [v for v in self.wvars() if v.kind == "wide" and v is not root]
            if vs:
                self.wres = self.pick(vs)

    # ---- statements
    def wout(self, x):
        f = "pl" if bits(promote(x[3])) == 64 and x[3] in ("llong", "ullong") else "pu"
        return ["expr", ["call", f, [x[0]]]]

    def wdecl(self, loc=True):
        nm, t = self.fresh("w"), self.pick(self.wtypes())
        x = self.wfull(2)
        self.wres = None
        self.scopes[-1].append(Var(nm, t, *BOUNDS[t], kind="wide", loc=loc))
        if self.c(3) == 2:
            return [["decl", nm, t, None], ["expr", ["asg", "", ["var", nm], x[0]]]]
        return [["decl", nm, t, x[0]]]

    def w_assign(self):
        vs = self.wvars()
        if not vs:
            return self.wdecl()
        v = self.pick(vs)
        self.wbegin(v)
        L, t = self.wlval(v)
        k = self.c(5)
        if k < 2:
            return [["expr", ["asg", "", L, self.wexpr(3)[0]]]]
        if k == 4 and t not in ("int", "llong"):
            return [["expr", ["inc", self.c(2), self.c(2) * 2 - 1, L]]]
        op, e = self.wop(t, L, 2)
        return [["expr", ["asg", op, L, e]]]

    def w_stmt(self):
        if self.in_pure:
            return self.assign()
        k = self.c(12)
        self.wres = None
        if k < 2:
            return [self.wout(self.wfull(3))]
        if k < 5:
            return self.w_assign()
        if k == 5:
            return self.wdecl()
        if k == 6:
            nm, t, n = self.fresh("a"), self.pick(self.wtypes()), self.pick([2, 4, 8])
            self.scopes[-1].append(Var(nm, ("a", t, n), kind="warr", region=(t, n)))
            return [["decl", nm, ("a", t, n), ["list", [self.wlit(t)[0] for _ in range(n)]]]]
        if k == 7:
            c = self.wfull(2)[0]
            self.wres = None
            a, b = self.wbody(), self.wbody() if self.c(2) else None
            return [["if", c, a, b]]
        if k == 8:
            i = self.fresh("n")
            self.scopes.append([])
            b = []
            for _ in range(1 + self.c(2)):
                b += self.w_assign() if self.c(2) else [self.wout(self.wfull(2))]
            self.scopes.pop()
            iv = ["var", i]
            return [["block", [["decl", i, "int", None], ["for", ["expr", ["asg", "", iv, ["int", 0]]], ["bin", "<", iv, ["int", 1 + self.c(5)]], ["inc", 0, 1, iv], ["block", b]]]]]
        if k == 9:
            x = self.wfull(2)
            e = x[0]
            if x[3] in ("uint", "llong", "ullong"):
                e = ["cast", self.pick(["int", "char", "short"]), ["paren", e]]
            self.wres = None
            if self.c(2):
                e = ["bin", "&", ["paren", e], ["lit", 3, "int", 0]]
            vals = []
            for _ in range(1 + self.c(3)):
                v = self.c(4) if self.c(2) else self.pick([-1, -128, 255, 127, -2, 65535, I32MAX, 300])
                if v not in vals:
                    vals.append(v)
            cs = [[[["int", v]], [self.wout(self.wfull(1)), ["break"]]] for v in vals]
            cs.append([["default"], [self.wout(self.wfull(1)), ["break"]]])
            return [["switch", e, cs]]
        # the difference or comparison of two pointers
        x = self.wptr()
        if x:
            return [self.wout(x)]
        return self.w_assign()

    def wbody(self):
        self.scopes.append([])
        b = self.w_assign() if self.c(2) else [self.wout(self.wfull(2))]
        self.scopes.pop()
        self.wres = None
        return ["block", b]

    # ---- declarations
    def helpers(self):
        super().helpers()
        P, n = self.P, ["var", "n"]
        P.funcs.append(("pun", "void", [("n", "uint")], [
            ["if", ["bin", ">", n, ["int", 9]], ["expr", ["call", "pun", [["bin", "/", n, ["int", 10]]]]], None],
            ["expr", ["call", "putchar", [["bin", "+", ["int", 48], ["bin", "%", n, ["int", 10]]]]]]]))
        P.funcs.append(("pu", "void", [("n", "uint")], [["expr", ["call", "pun", [n]]], ["expr", ["call", "putchar", [["int", 32]]]]]))
        P.order += [("func", "pun"), ("func", "pu")]
        if self.f("x64", 0):
            P.funcs.append(("pl", "void", [("n", "ullong")], [["expr", ["call", "pun", [["bin", ">>", n, ["int", 32]]]]], ["expr", ["call", "putchar", [["int", 58]]]],
                                                             ["expr", ["call", "pu", [n]]]]))
            P.order.append(("func", "pl"))

    def make_globals(self):
        super().make_globals()
        for _ in range(1 + self.c(4)):
            nm, t = self.fresh("gw"), self.pick(self.wtypes())
            k = self.c(5)
            if k < 2:
                self.P.globals.append((nm, t, self.wlit(t)[0] if self.c(2) else None))
                self.scopes[0].append(Var(nm, t, *BOUNDS[t], kind="wide", loc=False))
            elif k == 2:
                n = self.pick([2, 4, 8])
                self.P.globals.append((nm, ("a", t, n), ["list", [self.wlit(t)[0] for _ in range(1 + self.c(n))]] if self.c(2) else None))
                self.scopes[0].append(Var(nm, ("a", t, n), kind="warr", region=(t, n), loc=False))
            else:
                st = self.fresh("W")
                fs = [(self.fresh("m"), self.pick(self.wtypes())) for _ in range(1 + self.c(5))]
                region = list(fs)
                if self.c(3) == 2:
                    f = self.fresh("m")
                    fs.insert(self.c(len(fs) + 1), (f, ("a", "uchar", self.pick([4, 5, 7, 11]))))
                    region.append((f, "arr"))
                self.P.structs[st] = ("s", fs)
                self.P.order.append(("struct", st))
                T = ("s", st)
                if k == 3:
                    self.P.globals.append((nm, T, None))
                    self.scopes[0].append(Var(nm, T, kind="wstruct", region=region, loc=False))
                else:
                    n = self.pick([2, 4, 7])
                    self.P.globals.append((nm, ("a", T, n), None))
                    self.scopes[0].append(Var(nm, ("a", T, n), kind="wrec", region=(T, n), loc=False))
            self.P.order.append(("global", nm))
        self.wfuncs = []
        for _ in range(self.c(4)):
            self.make_wfunc()

    def make_wfunc(self):
        nm, ret = self.fresh("wf"), self.pick(self.wtypes())
        ps = [(self.fresh("p"), self.pick(self.wtypes())) for _ in range(1 + self.c(3))]
        self.scopes.append([Var(n, t, *BOUNDS[t], kind="wide", loc="w") for n, t in ps])
        self.wlocal = True
        body = []
        for _ in range(self.c(3)):
            body += self.w_assign() if self.c(3) else self.wdecl("w")
        self.wres = None
        if self.c(3) == 2:
            body.append(["if", self.wcond(1), ["return", self.wexpr(1)[0]], None])
        body.append(["return", self.wexpr(2)[0]])
        self.wlocal = False
        self.scopes.pop()
        self.P.funcs.append((nm, ret, ps, body))
        self.P.order.append(("func", nm))
        self.wfuncs.append((nm, ret, ps))

    def dump(self):
        out = super().dump()
        for v in self.scopes[0]:
            if v.kind == "wide":
                out.append(self.wout((["var", v.name],) + BOUNDS[v.t] + (v.t,)))
            elif v.kind == "warr":
                for i in range(v.region[1]):
                    out.append(self.wout((["idx", ["var", v.name], ["int", i]],) + BOUNDS[v.region[0]] + (v.region[0],)))
            elif v.kind == "wstruct":
                for f, t in v.region:
                    if t != "arr":
                        out.append(self.wout((["fld", ["var", v.name], f],) + BOUNDS[t] + (t,)))
        return out
