"""Seeded generator of well-defined programs (ASTs of lib/minic.py).

Every decision is one draw from a choice stream: a fresh stream draws from a
seeded PRNG and records; replaying a (shortened, zeroed) recording gives the
shrunk program. Choice 0 is always the simplest alternative.

Integer expressions carry the interval of values they can take, so that
generated arithmetic does not overflow; what slips through (rare) is rejected
by the interpreter.
"""
import random
from minic import Prog

I32MIN, I32MAX = -2 ** 31, 2 ** 31 - 1


class Choices:
    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed)
        self.replay = replay
        self.rec = []

    def __call__(self, n):
        if n <= 1:
            return 0
        i = len(self.rec)
        if self.replay is not None:
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v


class Var:
    __slots__ = ("name", "t", "lo", "hi", "ro", "kind", "region", "loc", "unsig")

    def __init__(self, name, t, lo=0, hi=0, ro=False, kind="int", region=None, loc=True):
        self.name, self.t, self.lo, self.hi, self.ro, self.kind, self.region, self.loc = name, t, lo, hi, ro, kind, region, loc


RANGES = [(-100, 100), (0, 127), (-1000, 1000), (0, 255), (-30000, 30000), (I32MIN, I32MAX), (0, 15), (-(1 << 20), 1 << 20), (0, I32MAX)]
WORDS = ["alpha", "beta", "gamma", "delta", "omega", "count", "total", "value", "index", "limit", "left", "right", "state", "node", "item", "size",
         "width", "depth", "score", "level", "sum", "acc", "tmp", "cur", "next", "prev", "head", "tail", "key", "val", "cnt", "pos"]


class Gen:
    def __init__(self, choices, dialect="exe", feats=None, size=12):
        self.c = choices
        self.sh = dialect == "sh"
        self.in_switch = 0
        self.P = Prog()
        self.n = 0
        self.scopes = [[]]
        self.funcs = {}           # name -> (ret range or None, params, pure)
        self.fuel = size
        self.loop_depth = 0
        self.feats = feats or {}
        self.labels = []
        self.in_pure = False
        self.used = set()
        self.fptypes = {}
        self.has_pi = False
        self.excl = set()
        self.iodone = 0
        self.inloop_ctl = []
        self.fname = None
        self.cost = 1
        self.io = None
        self.fr = {}
        self.punned = set()
        self.endstmts = []

    # ---- helpers
    def pick(self, xs):
        return xs[self.c(len(xs))]

    def chance(self, k, n):
        """True with probability k/n; 0 (simplest) means no."""
        return self.c(n) >= n - k

    def fresh(self, p):
        self.n += 1
        base = WORDS[self.c(len(WORDS))] if self.c(3) == 2 else p
        return "%s%d" % (base, self.n)

    def f(self, name, dflt=1):
        return self.feats.get(name, dflt)

    def vars(self, pred):
        out = []
        for s in self.scopes:
            for v in s:
                if v.name not in self.excl and pred(v):
                    out.append(v)
        return out

    # ---- integer expressions: (ast, lo, hi, type)
    def lit(self, lo=-100, hi=100):
        k = self.c(8)
        cands = [0, 1, 2, lo, hi, -1, 7, 10]
        if k < 4:
            v = cands[self.c(8)]
        else:
            v = lo + self.c(hi - lo + 1) if hi - lo < 1 << 20 else lo + self.c(1 << 20) * ((hi - lo) >> 20)
        v = min(max(v, lo), hi)
        if v == I32MIN:
            v += 1
        st = self.c(4) if v >= 0 else 0
        return (["int", v, st if st < 3 and not (self.sh and st == 2 and False) else 0], v, v, "int")

    def fit(self, x, lo, hi):
        """Restricts x to [lo, hi]."""
        e, a, b, t = x
        if lo <= a and b <= hi:
            return x
        if lo == hi:
            return (["int", lo], lo, lo, "int")
        k = self.c(3)
        if lo < 0 and hi >= 0 and hi > 0 and k != 2 and lo >= -hi - 1 and -hi >= lo and t == "int":
            return (["bin", "%", e, ["int", hi + 1]], -hi, hi, t) if hi < I32MAX else (e, a, b, t)
        m = 1
        span = hi - lo
        while m * 2 + 1 <= span:
            m = m * 2 + 1
        if span < 1:
            return (["int", lo], lo, lo, "int")
        if lo == 0:
            if k == 1 and a >= 0 and hi < I32MAX:
                return (["bin", "%", e, ["int", hi + 1]], 0, hi, t)
            return (["bin", "&", e, ["int", m]], 0, m, t)
        return (["bin", "+", ["bin", "&", e, ["int", m]], ["int", lo]], lo, lo + m, t)

    def leaf(self):
        k = self.c(10)
        vs = self.vars(lambda v: v.kind == "int" and v.name not in self.used)
        if k < 6 and vs:
            v = self.pick(vs)
            return (["var", v.name], v.lo, v.hi, v.t)
        if k == 6:
            x = self.arr_read()
            if x:
                return x
        if k == 7:
            x = self.field_read()
            if x:
                return x
        if k == 8 and self.P.consts:
            n = self.pick(sorted(self.P.consts))
            v = self.P.consts[n]
            return (["cst", n], v, v, "int")
        if k == 9:
            ch = self.pick([97, 48, 32, 10, 90, 92, 39, 126, 9, 0, 37])
            return (["chr", ch], ch, ch, "int")
        return self.lit()

    def index(self, n, depth):
        """An expression in [0, n-1]."""
        vs = self.vars(lambda v: v.kind == "int" and 0 <= v.lo and v.hi < n and v.t != "uchar" and v.name not in self.used)
        if vs and self.c(3):
            v = self.pick(vs)
            return ["var", v.name]
        if self.c(3) == 0:
            return ["int", self.c(n)]
        return self.fit(self.iexpr(min(depth, 1)), 0, n - 1)[0]

    def arr_read(self):
        if self.in_pure:
            return None
        vs = self.vars(lambda v: v.kind == "arr" or v.kind == "ptr")
        if not vs:
            return None
        v = self.pick(vs)
        return self.elem(v)

    def elem(self, v):
        """Element lvalue of array or pointer variable v."""
        et, n, lo, hi = v.region
        if v.kind == "ptr":
            e = ["deref", ["var", v.name]] if self.c(2) else ["idx", ["var", v.name], ["int", 0]]
            return (e, lo, hi, et)
        i = self.index(n, 1)
        k = self.c(6)
        if k == 4:
            e = ["deref", ["bin", "+", ["var", v.name], i]]
        elif k == 5 and not self.sh:
            e = ["idx", ["paren", i], ["var", v.name]]
        else:
            e = ["idx", ["var", v.name], i]
        return (e, lo, hi, et)

    def field_read(self):
        if self.in_pure:
            return None
        vs = self.vars(lambda v: v.kind in ("sptr", "struct", "sarr"))
        if not vs:
            return None
        return self.field(self.pick(vs))

    def field(self, v):
        fs = v.region
        fn, path, lo, hi, ft = self.pick(fs)
        e = ["var", v.name]
        for i, p in enumerate(path):
            if p[0] == "[":
                e = ["idx", e, self.index(p[1], 1)]
            elif i == 0 and v.kind == "sptr":
                e = ["arrow", e, p[1]] if self.c(4) or self.sh else ["fld", ["deref", e], p[1]]
            else:
                e = ["fld", e, p[1]]
        return (e, lo, hi, ft)

    CMP = ["<", ">", "==", "!=", "<=", ">="]

    def both(self, x, y, op):
        """Keeps mixed signed/unsigned operations inside the range where both readings agree."""
        if x[3] in ("uint", "ushort", "uchar") or y[3] in ("uint", "ushort", "uchar"):
            if x[1] < 0:
                x = self.fit(x, 0, min(I32MAX, max(x[2], 255)))
            if y[1] < 0:
                y = self.fit(y, 0, min(I32MAX, max(y[2], 255)))
        return x, y

    @staticmethod
    def rt(x, y):
        return "uint" if "uint" in (x[3], y[3]) else "int"

    def iexpr(self, depth=2, test=False):
        if depth <= 0 or self.c(5) == 0:
            return self.leaf()
        d = depth - 1
        k = self.c(22)
        if k < 4:       # + -
            op = "+-"[self.c(2)]
            x, y = self.iexpr(d), self.iexpr(d)
            x, y = self.both(x, y, op)
            L = 1 << 29
            x, y = self.fit(x, -L, L) if x[1] < -L or x[2] > L else x, self.fit(y, -L, L) if y[1] < -L or y[2] > L else y
            if x[3] == "uint" or y[3] == "uint":
                x, y = self.both(x, y, op)
                op = "+"
            lo, hi = (x[1] + y[1], x[2] + y[2]) if op == "+" else (x[1] - y[2], x[2] - y[1])
            t = self.rt(x, y)
            if t != "uint" and (x[3] in ("uchar", "ushort") or y[3] in ("uchar", "ushort")) and lo < 0:
                return self.nonneg_cast((["bin", op, x[0], y[0]], lo, hi, "int"))
            return (["bin", op, x[0], y[0]], lo, hi, t)
        if k == 4:      # *
            x, y = self.iexpr(d), self.iexpr(d)
            x, y = self.both(x, y, "*")
            if max(abs(x[1]), abs(x[2])) * max(abs(y[1]), abs(y[2])) > I32MAX:
                x, y = self.fit(x, 0, 1023), self.fit(y, 0, 255) if y[3] in ("uint", "ushort", "uchar") or self.c(2) else self.fit(y, -100, 100)
                x, y = self.both(x, y, "*")
            ps = [a * b for a in x[1:3] for b in y[1:3]]
            return (["bin", "*", x[0], y[0]], min(ps), max(ps), self.rt(x, y))
        if k == 5:      # / %
            op = "/%"[self.c(2)]
            x = self.iexpr(d)
            if self.c(2):
                y = self.lit(1, 100)
                if x[3] == "int" and self.c(4) == 3 and y[1] > 1:
                    y = (["int", -y[1]], -y[1], -y[1], "int")
            else:
                y = self.fit(self.iexpr(d), 0, 15)
                y = (["bin", "+", y[0], ["int", 1]], 1, 16, y[3])
            x, y = self.both(x, y, op)
            m = max(abs(x[1]), abs(x[2]))
            if op == "/":
                return (["bin", "/", x[0], y[0]], -m if x[1] < 0 or y[1] < 0 else 0, min(m, I32MAX), self.rt(x, y))
            ym = max(abs(y[1]), abs(y[2])) - 1
            return (["bin", "%", x[0], y[0]], -min(ym, m) if x[1] < 0 else 0, min(ym, m) if x[2] > 0 else 0, self.rt(x, y))
        if k == 6:      # & | ^
            op = "&|^"[self.c(3)]
            x, y = self.iexpr(d), self.iexpr(d)
            x, y = self.both(x, y, op)
            if x[1] >= 0 and y[1] >= 0:
                m = 1
                while m - 1 < max(x[2], y[2]):
                    m *= 2
                hi = min(x[2], y[2]) if op == "&" else m - 1
                return (["bin", op, x[0], y[0]], 0, hi, self.rt(x, y))
            m = 1
            while m < max(abs(x[1]), abs(x[2]), abs(y[1]), abs(y[2])) + 1:
                m *= 2
            return (["bin", op, x[0], y[0]], max(-m, I32MIN), min(m - 1, I32MAX), self.rt(x, y))
        if k == 7:      # shifts
            if self.c(2):
                x = self.fit(self.iexpr(d), 0, 1023)
                s = self.c(16)
                sh = ["int", s] if self.c(2) else self.fit(self.iexpr(d), 0, 15)[0]
                return (["bin", "<<", x[0], sh], 0, x[2] << 15, "uint" if x[3] == "uint" else "int")
            x = self.iexpr(d)
            if x[3] in ("uchar", "ushort", "uint") and x[1] < 0:
                x = self.fit(x, 0, 255)
            sh = ["int", self.c(16)] if self.c(2) else self.fit(self.iexpr(d), 0, 15)[0]
            return (["bin", ">>", x[0], sh], min(x[1], 0), max(x[2], 0), "uint" if x[3] == "uint" else "int")
        if k in (8, 9):     # comparison
            op = self.pick(self.CMP)
            if self.c(6) == 5:
                p = self.ptr_cmp()
                if p:
                    return p
            x, y = self.iexpr(d), self.iexpr(d)
            x, y = self.both(x, y, op)
            return (["bin", op, x[0], y[0]], 0, 1, "int")
        if k == 10:
            op = self.pick(["-", "~", "!", "+"] if not self.sh else ["-", "~", "!", "-"])
            x = self.iexpr(d)
            if op == "!":
                return (["un", "!", x[0]], 0, 1, "int")
            if x[3] in ("uint", "uchar", "ushort"):
                return x
            if op == "-":
                if x[1] <= I32MIN:
                    x = self.fit(x, -1000, 1000)
                if not self.f("neg", 1) and x[0][0] != "int":
                    return (["bin", "-", ["int", 0], ["paren", x[0]]], -x[2], -x[1], "int")
                return (["un", "-", x[0]], -x[2], -x[1], "int")
            if op == "+":
                return (["un", "+", x[0]], x[1], x[2], x[3])
            return (["un", "~", x[0]], ~x[2], ~x[1], "int")
        if k == 11:     # logical
            return self.logical(d, test)
        if k in (12, 13):     # conditional
            c = self.cond(d)
            sv, self.nocall = getattr(self, "nocall", False), self.sh or getattr(self, "nocall", False)
            x, y = self.iexpr(d), self.iexpr(d)
            self.nocall = sv
            x, y = self.both(x, y, "?")
            if (x[3] == "uint") != (y[3] == "uint"):
                x, y = self.fit(x, 0, I32MAX), self.fit(y, 0, I32MAX)
            if x[3] != y[3] and not self.sh:   # known limit: pnut takes the type of one branch
                pass
            return (["cond", c, x[0], y[0]], min(x[1], y[1]), max(x[2], y[2]), self.rt(x, y))
        if k == 14 and not self.sh:     # casts
            t, lo, hi = self.pick([("int", I32MIN, I32MAX), ("char", -128, 127), ("short", -32768, 32767), ("uchar", 0, 255), ("ushort", 0, 65535)])
            x = self.iexpr(d)
            if x[3] == "uint" and t == "int":
                x = self.fit(x, 0, I32MAX)
            if lo <= x[1] and x[2] <= hi:
                lo, hi = x[1], x[2]
            if t in ("uchar", "ushort"):
                x = self.fit(x, lo, hi)
                return (["cast", t, ["paren", x[0]]], max(lo, x[1]), min(hi, x[2]), t)
            return (["cast", t, ["paren", x[0]]], lo, hi, t)
        if k == 15 and not self.sh:
            t = self.pick(["int", "char", "short", ("p", "int"), ("a", "int", 5)])
            return (["cast", "int", ["sizeof", t]], 1, 20, "int")
        if k in (16, 17):   # pure call
            x = self.pure_call(d)
            if x:
                return x
        if k == 18:     # side effect on a variable not otherwise used in this full expression
            x = self.side_effect(d)
            if x:
                return x
        if k == 19:     # comma
            if not self.sh:
                sv, self.nocall = getattr(self, "nocall", False), self.sh or getattr(self, "nocall", False)
                x, y = self.iexpr(d), self.iexpr(d)
                self.nocall = sv
                return (["paren", ["comma", x[0], y[0]]], y[1], y[2], y[3])
        if k == 20:
            x = self.arr_read()
            if x:
                return x
        if k == 21:
            x = self.field_read()
            if x:
                return x
        return self.leaf()

    def nonneg_cast(self, x):
        return x

    def logical(self, d, test=False):
        x, y = self.iexpr(d), self.iexpr(d)
        e = ["and" if self.c(2) else "or", x[0], y[0]]
        if not self.sh and not self.f("norm_logical", 1):
            e = ["un", "!", ["paren", e]]
        return (e, 0, 1, "int")

    def cond(self, d=1):
        """A test: comparison mostly."""
        k = self.c(6)
        if k < 3:
            x, y = self.iexpr(d), self.iexpr(d)
            op = self.pick(self.CMP)
            x, y = self.both(x, y, op)
            return ["bin", op, x[0], y[0]]
        if k == 3:
            return [self.pick(["and", "or"]), self.cond(d - 1) if d > 0 else self.leaf()[0], self.cond(d - 1) if d > 0 else self.leaf()[0]]
        if k == 4:
            return ["un", "!", ["paren", self.iexpr(d)[0]]]
        return self.iexpr(d)[0]

    def ptr_cmp(self):
        if self.in_pure:
            return None
        vs = self.vars(lambda v: v.kind == "ptr" and v.region[4:] if False else v.kind == "ptr")
        if not vs:
            return None
        v = self.pick(vs)
        base = v.loc
        if not isinstance(base, str) or base in self.excl:
            return None
        k = self.c(4)
        if k == 0:
            return (["bin", "-", ["var", v.name], ["var", base]], 0, v.region[1], "int")
        op = self.pick(self.CMP)
        return (["bin", op, ["var", v.name], ["bin", "+", ["var", base], ["int", self.c(v.region[1])]]], 0, 1, "int")

    def pure_call(self, d):
        if getattr(self, "nocall", False):
            return None
        fs = [n for n, f in sorted(self.funcs.items()) if f["pure"] and n != self.fname and f["cost"] <= self.budget()]
        if not fs:
            return None
        n = self.pick(fs)
        f = self.funcs[n]
        self.cost += f["cost"]
        args = []
        sv, self.nocall = getattr(self, "nocall", False), getattr(self, "nocall", False) or self.c(2) == 0
        for lo, hi, t in f["params"]:
            args.append(self.fit(self.iexpr(d), lo, hi)[0])
        self.nocall = sv
        fe = ["call", n, args]
        if not self.sh and f.get("fp") and self.c(3) == 2:
            fe = ["icall", ["deref", ["var", f["fp"]]] if self.c(2) else ["var", f["fp"]], args]
            if f["fp"] in self.excl or self.in_pure:
                fe = ["call", n, args]
        return (fe, f["lo"], f["hi"], f["rt"])

    def budget(self):
        return max(0, 400 // (8 ** self.loop_depth))

    noeff = False

    def pexpr(self, d):
        """An expression without side effects of its own, for use among others."""
        save, self.noeff = self.noeff, True
        x = self.iexpr(d)
        self.noeff = save
        return x

    def side_effect(self, d):
        if self.in_cond_eval() or self.noeff:
            return None
        vs = self.vars(lambda v: v.kind == "int" and not v.ro and v.name not in self.used and (v.loc is True or not self.in_pure))
        if not vs:
            return None
        v = self.pick(vs)
        # the variable must not appear anywhere else in this full expression
        if v.name in self.seen():
            return None
        self.used.add(v.name)
        self.effects.add(v.name)
        if self.c(2) and v.hi - v.lo > 2:
            k = self.c(3)
            e = ["asg", "", ["var", v.name], self.fit(self.iexpr(d), v.lo, v.hi)[0]]
            return (["paren", e], v.lo, v.hi, v.t)
        pre, dd = self.c(2), 1 if self.c(2) else -1
        # keep the range: only when the variable is wide and reduced right before
        return None

    def seen(self):
        return self.appeared

    appeared = frozenset()
    effects = set()

    def in_cond_eval(self):
        return False

    def full(self, depth=2, lo=None, hi=None):
        """A full expression: resets the bookkeeping of side effects."""
        save = self.used, self.effects
        self.used, self.effects = set(), set()
        for _ in range(3):
            mark = len(self.c.rec)
            x = self.iexpr(depth)
            if self.effects and self.conflict(x[0]):
                self.used, self.effects = set(), set()
                continue
            break
        else:
            x = self.lit()
        self.used, self.effects = save
        if lo is not None:
            x = self.fit(x, lo, hi)
        return x

    def conflict(self, e):
        """True if a variable with a side effect occurs twice, or a shell call is mixed with one."""
        occ, calls = {}, [0]

        def go(x):
            if isinstance(x, list):
                if len(x) > 1 and x[0] == "var":
                    occ[x[1]] = occ.get(x[1], 0) + 1
                if x and x[0] in ("call", "icall"):
                    calls[0] += 1
                for y in x:
                    go(y)
        go(e)
        return any(occ.get(v, 0) > 1 for v in self.effects) or (self.sh and calls[0] and self.effects)

    def fcond(self, d=1):
        save = self.used, self.effects
        self.used, self.effects = set(), set()
        for _ in range(3):
            x = self.cond(d)
            if not (self.effects and self.conflict(x)):
                break
            self.used, self.effects = set(), set()
        else:
            x = ["int", 1]
        self.used, self.effects = save
        return x

    # ---- statements
    def out_int(self, e):
        return [["expr", ["call", "pi", [e]]]] if not self.sh else [["expr", ["call", "printf", [["str", "%d" + self.pick([" ", "\n", ","])], e]]]]

    def assign(self):
        vs = self.vars(lambda v: v.kind == "int" and not v.ro and (v.loc is True or not self.in_pure))
        if not vs:
            return self.out()
        v = self.pick(vs)
        return [self.assign_lv(["var", v.name], v.lo, v.hi, v.t)]

    def assign_lv(self, lv, lo, hi, t):
        k = self.c(8)
        names = set()

        def go(x):
            if isinstance(x, list):
                if len(x) > 1 and x[0] == "var":
                    names.add(x[1])
                for y in x:
                    go(y)
        go(lv)
        sv = self.excl
        if k < 4 or hi - lo < 3:
            x = self.full(2)
            if names & self.last_effects(x[0]):
                x = self.lit()
            return ["expr", ["asg", "", lv, self.fit(x, lo, hi)[0]]]
        if k == 4:
            # masked compound assignments keep the range
            if lo <= 0:
                m = 1
                while m * 2 + 1 <= hi:
                    m = m * 2 + 1
                op = self.pick(["&", "%", "/", ">>"])
                c = {"&": self.c(m + 1), "%": self.c(100) + 1, "/": self.c(20) + 1, ">>": self.c(8)}[op]
                if op == "&" and t in ("uint", "ushort", "uchar") or op == "&":
                    return ["expr", ["asg", "&", lv, ["int", c]]]
                return ["expr", ["asg", op, lv, ["int", c]]]
        if k in (5, 6):
            # conditional increment
            if names & {"i"}:
                pass
            up = self.c(2)
            lim = ["bin", "<", lv, ["int", hi]] if up else ["bin", ">", lv, ["int", lo + 1 if lo == I32MIN else lo]]
            op = self.c(4)
            if op == 0:
                st = ["inc", True, 1 if up else -1, lv]
            elif op == 1:
                st = ["inc", False, 1 if up else -1, lv]
            elif op == 2:
                st = ["asg", "+" if up else "-", lv, ["int", 1]]
            else:
                st = ["asg", "-" if up else "+", lv, ["int", -1]]
            if t in ("uchar", "ushort") and op == 3:
                st = ["inc", True, 1 if up else -1, lv]
            if self.c(3) == 2:
                return ["if", lim, ["block", [["expr", st]] if self.in_pure else self.out_int(st)], None]
            return ["if", lim, ["expr", st], None]
        if k == 7 and hi >= 255 and lo <= 0:
            # x op= small after masking
            x = self.full(1, 0, 15)
            op = self.pick(["+", "*", "|", "^", "<<", "-"])
            if names & self.last_effects(x[0]):
                x = self.lit(0, 15)
            pre = ["expr", ["asg", "&", lv, ["int", 15]]]
            if op == "-" and (lo > -16 or t in ("uint", "uchar", "ushort")):
                op = "+"
            if op == "<<":
                x = (["int", self.c(4)],)
            return ["block", [pre, ["expr", ["asg", op, lv, x[0]]]]]
        x = self.full(2)
        if names & self.last_effects(x[0]):
            x = self.lit()
        return ["expr", ["asg", "", lv, self.fit(x, lo, hi)[0]]]

    def last_effects(self, e):
        out = set()

        def go(x):
            if isinstance(x, list):
                if x and x[0] == "asg" or x and x[0] == "inc":
                    lv = x[2] if x[0] == "asg" else x[3]
                    go2(lv, out)
                for y in x:
                    go(y)

        def go2(x, o):
            if isinstance(x, list):
                if len(x) > 1 and x[0] == "var":
                    o.add(x[1])
                for y in x:
                    go2(y, o)
        go(e)
        return out

    def store_elem(self):
        if self.in_pure:
            return self.assign()
        vs = self.vars(lambda v: v.kind in ("arr", "ptr", "sptr", "struct") and not v.ro)
        if not vs:
            return self.assign()
        v = self.pick(vs)
        save = self.used, self.effects
        self.used, self.effects = set(), set()
        x = self.elem(v) if v.kind in ("arr", "ptr") else self.field(v)
        if self.effects:
            self.used, self.effects = save
            return self.assign()
        self.used, self.effects = save
        if self.last_effects(x[0]):
            return self.assign()
        return [self.assign_lv(x[0], x[1], x[2], x[3])]

    def decl_int(self):
        nm = self.fresh("v")
        lo, hi = self.pick(RANGES)
        t = "int"
        if not self.sh:
            k = self.c(8)
            if k == 5:
                t, lo, hi = "char", -128, 127
            elif k == 6:
                t, lo, hi = self.pick([("short", -32768, 32767), ("ushort", 0, 65535), ("uchar", 0, 255)])
            elif k == 7:
                t, lo, hi = "uint", 0, I32MAX
        elif self.c(6) == 5:
            t, lo, hi = "char", 0, 127
        x = self.full(2, lo, hi)
        if self.c(4) == 0 and not self.last_effects(x[0]):
            self.scopes[-1].append(Var(nm, t, lo, hi))
            return [["decl", nm, t, None], ["expr", ["asg", "", ["var", nm], x[0]]]]
        self.scopes[-1].append(Var(nm, t, lo, hi))
        return [["decl", nm, t, x[0]]]

    def decl_static(self):
        if self.sh:
            return self.decl_int()
        nm = self.fresh("s")
        lo, hi = self.pick(RANGES)
        v = min(max(self.c(21) - 10, lo), hi)
        self.scopes[-1].append(Var(nm, "int", lo, hi, loc="static"))
        return [["decl", nm, "int", ["int", v] if self.c(3) else None, "static"]]

    def decl_arr(self):
        if self.sh or self.in_pure and False:
            return self.decl_int()
        nm = self.fresh("a")
        et, lo, hi = self.pick([("int", -1000, 1000), ("int", I32MIN, I32MAX), ("char", -128, 127), ("short", -32768, 32767), ("uchar", 0, 255)])
        n = self.pick([4, 2, 8, 5, 16, 3])
        if self.c(8) == 7:
            # two-dimensional, used through a flat view
            m = self.pick([2, 3, 4])
            rows = [["list", [["int", min(max(self.c(100) - 50, lo), hi)] for _ in range(m)]] for _ in range(n if n < 5 else 3)]
            n2 = len(rows)
            self.scopes[-1].append(Var(nm, ("a", ("a", et, m), n2), kind="mat", region=(et, n2, m, lo, hi)))
            return [["decl", nm, ("a", ("a", et, m), n2), ["list", rows]]]
        k = 1 + self.c(n)
        init = ["list", [["int", min(max(self.c(200) - 100, lo), hi)] for _ in range(k)]]
        if et == "char" and self.c(2):
            init = ["str", "abcdefghijklmnop"[:self.c(n)]]
        self.scopes[-1].append(Var(nm, ("a", et, n), kind="arr", region=(et, n, lo, hi)))
        return [["decl", nm, ("a", et, n), init]]

    def mat_op(self):
        vs = self.vars(lambda v: v.kind == "mat")
        if not vs or self.in_pure:
            return self.store_elem()
        v = self.pick(vs)
        et, n, m, lo, hi = v.region
        lv = ["idx", ["idx", ["var", v.name], self.index(n, 1)], self.index(m, 1)]
        if self.last_effects(lv):
            return self.assign()
        return [self.assign_lv(lv, lo, hi, et)] + self.out_int(["idx", ["idx", ["var", v.name], ["int", self.c(n)]], ["int", self.c(m)]])

    def decl_ptr(self):
        if self.in_pure:
            return self.decl_int()
        vs = self.vars(lambda v: v.kind == "arr")
        if not vs:
            return self.decl_arr()
        a = self.pick(vs)
        et, n, lo, hi = a.region
        nm = self.fresh("p")
        i = self.index(n, 1)
        if self.last_effects(i):
            i = ["int", 0]
        base = ["var", a.name]
        e = ["addr", ["idx", base, i]] if self.c(2) else ["bin", "+", base, i]
        v = Var(nm, ("p", et), kind="ptr", region=(et, n, lo, hi), loc=a.name)
        self.scopes[-1].append(v)
        return [["decl", nm, ("p", et), e]]

    def move_ptr(self):
        vs = self.vars(lambda v: v.kind == "ptr")
        if not vs or self.in_pure:
            return self.assign()
        v = self.pick(vs)
        et, n, lo, hi = v.region
        a = v.loc
        if not isinstance(a, str) or not self.vars(lambda w: w.name == a and w.kind == "arr"):
            return self.assign()
        k = self.c(4)
        P = ["var", v.name]
        if k == 1:
            step = self.pick([["inc", False, 1, P], ["inc", True, 1, P], ["asg", "+", P, ["int", 1]]])
            return [["if", ["bin", "<", ["bin", "-", P, ["var", a]], ["int", n - 1]], ["block", [["expr", step]]], None]]
        if k == 2:
            step = self.pick([["inc", False, -1, P], ["inc", True, -1, P], ["asg", "-", P, ["int", 1]]])
            return [["if", ["bin", ">", P, ["var", a]], ["block", [["expr", step]]], None]]
        if k == 3:
            # value through post-increment
            return [["if", ["bin", "<", P, ["bin", "+", ["var", a], ["int", n - 1]]],
                     ["block", self.out_int(["deref", ["inc", False, 1, P]]) if not self.sh else [["expr", ["inc", False, 1, P]]]], None]]
        i = self.index(n, 1)
        if self.last_effects(i):
            i = ["int", 0]
        return [["expr", ["asg", "", P, ["addr", ["idx", ["var", a], i]]]]]

    def walk(self):
        """Pointer walk over an array."""
        vs = self.vars(lambda v: v.kind == "arr")
        if not vs or self.in_pure or self.loop_depth > 1:
            return self.assign()
        a = self.pick(vs)
        et, n, lo, hi = a.region
        if n > 16:
            return self.assign()
        nm = self.fresh("w")
        P = ["var", nm]
        self.scopes.append([])
        pre = [["decl", nm, ("p", et), ["var", a.name]]]
        body = []
        self.loop_depth += 1
        if self.c(2):
            body += self.out_int(["deref", P])
        else:
            body.append(self.assign_lv(["deref", P], lo, hi, et))
        self.loop_depth -= 1
        end = ["bin", "<", P, ["bin", "+", ["var", a.name], ["int", n]]] if self.c(2) else ["bin", "!=", P, ["addr", ["idx", ["var", a.name], ["int", n]]]]
        if self.c(2):
            st = pre + [["while", end, ["block", body + [["expr", self.pick([["inc", False, 1, P], ["asg", "+", P, ["int", 1]]])]]]]]
        else:
            st = pre + [["for", None, end, ["inc", self.c(2) == 1, 1, P], ["block", body]]]
        self.scopes.pop()
        return [["block", st]]

    def out(self):
        if self.in_pure:
            return self.assign() if self.vars(lambda v: v.kind == "int" and not v.ro and v.loc is True) else [["empty"]]
        return self.out_int(self.full(2)[0])

    def out_str(self):
        if self.in_pure:
            return self.assign()
        s = "".join(self.pick(["a", "Z", "0", " ", "%", "\n", "\\", '"', "'", "$", "-", "x", "`", "*", "\t", "#", "?", "~"]) for _ in range(self.c(8)))
        if self.sh:
            k = self.c(4)
            if not self.f("s_nl", 1):
                s = s.rstrip("\n")
            if k == 0:
                return [["expr", ["call", "putstr", [["str", s]]]]] if self.f("putstr", 0) else [["expr", ["call", "printf", [["str", "%s"], ["str", s]]]]]
            if k == 1:
                return [["expr", ["call", "printf", [["str", s.replace("%", "%%")]]]]]
            return [["expr", ["call", "printf", [["str", "[%s]\n"], ["str", s]]]]]
        nm = self.fresh("q")
        return [["block", [["decl", nm, ("p", "char"), ["str", s, self.c(3)]],
                           ["while", ["deref", ["var", nm]] if self.c(2) else ["bin", "!=", ["deref", ["var", nm]], ["int", 0]],
                            ["block", [["expr", ["call", "putchar", [["deref", ["inc", False, 1, ["var", nm]]]]]]]]]]]]

    def block(self, n=None):
        self.scopes.append([])
        out = []
        for _ in range(n if n is not None else 1 + self.c(3)):
            if self.fuel <= 0:
                break
            out += self.stmt()
        self.scopes.pop()
        return out

    def wrap(self, stmts):
        """A loop or branch body: sometimes a bare statement."""
        if len(stmts) == 1 and stmts[0][0] in ("expr", "break", "continue", "return", "if") and self.c(3) == 2:
            return stmts[0]
        return ["block", stmts]

    def s_if(self):
        c = self.fcond(2)
        a = self.block()
        k = self.c(4)
        b = None
        if k == 1:
            b = self.wrap(self.block())
        elif k >= 2:
            c2 = self.fcond(1)
            x = self.block()
            b = ["if", c2, self.wrap(x) if k == 2 else ["block", x], ["block", self.block()] if self.c(2) else None]
        return [["if", c, self.wrap(a), b]]

    def ctl(self, body, kinds):
        """Adds a guarded break/continue somewhere in a loop body."""
        if self.c(3) == 0 or not kinds or self.sh and self.in_switch:
            return body
        k = self.pick(kinds)
        i = self.c(len(body) + 1)
        # not before a declaration that later statements use is fine: jumps go outwards only
        g = ["if", self.fcond(1), ["block", ([[k]] if self.c(2) else self.block(1) + [[k]])], None]
        return body[:i] + [g] + body[i:]

    def s_for(self):
        if self.loop_depth >= 2 or self.fuel < 2:
            return self.assign()
        i = self.fresh("i")
        n = 1 + self.c(6)
        kind = self.c(5)
        self.scopes.append([])
        self.loop_depth += 1
        down = self.c(4) == 3
        self.scopes[-1].append(Var(i, "int", 0, n - 1, ro=True))
        iv = ["var", i]
        body = self.block()
        if down:
            init, test, step = n - 1, ["bin", ">=", iv, ["int", 0]], self.pick([["inc", False, -1, iv], ["inc", True, -1, iv], ["asg", "-", iv, ["int", 1]]])
        else:
            init, test, step = 0, self.pick([["bin", "<", iv, ["int", n]], ["bin", "!=", iv, ["int", n]], ["bin", "<=", iv, ["int", n - 1]]]), \
                self.pick([["inc", False, 1, iv], ["inc", True, 1, iv], ["asg", "+", iv, ["int", 1]]])
        self.scopes[-1].append(Var(i, "int", -1, n, ro=True)) if False else None
        if kind in (0, 1):
            body = self.ctl(body, ["continue", "break"])
            st = [["decl", i, "int", None], ["for", ["expr", ["asg", "", iv, ["int", init]]], test, step, self.wrap(body)]]
            if kind == 1 and not self.sh:
                st = [["for", ["decl", i, "int", ["int", init]], test, step, self.wrap(body)]]
                if not self.f("for_decl", 0):
                    st = [["decl", i, "int", ["int", init]], ["for", None, test, step, self.wrap(body)]]
        elif kind == 2:
            body = self.ctl(body, ["break"])
            st = [["decl", i, "int", ["int", init]], ["while", test, ["block", body + [["expr", step]]]]]
        elif kind == 3:
            body = self.ctl(body, ["break"] + (["continue"] if self.f("do_continue", 0) else []))
            if self.f("do_continue", 0):
                st = [["decl", i, "int", ["int", init]], ["do", ["block", [["expr", step]] + self.shift(body, iv, down)], self.shift_e(test, iv, down)]]
                st = [["decl", i, "int", ["int", init]], ["do", ["block", body + [["expr", step]]], test]] if any_continue(body) is False else st
            else:
                st = [["decl", i, "int", ["int", init]], ["do", ["block", body + [["expr", step]]], test]]
            if any_continue(body):
                st = [["decl", i, "int", ["int", init]], ["for", None, test, step, ["block", body]]]
        else:
            body = self.ctl(body, ["break"])
            st = [["decl", i, "int", ["int", init]],
                  ["for", None, None, step, ["block", [["if", ["un", "!", ["paren", test]], ["break"], None]] + body]]]
            if self.sh and self.in_switch:
                st = [st[0], ["for", None, test, step, ["block", body]]]
        self.loop_depth -= 1
        self.scopes.pop()
        return [["block", st]]

    def do_continue(self):
        """A do-while loop whose continue re-evaluates the condition."""
        if self.loop_depth >= 2 or self.fuel < 2 or self.in_pure or self.sh and self.in_switch:
            return self.assign()
        i = self.fresh("d")
        iv = ["var", i]
        n = 1 + self.c(4)
        self.loop_depth += 1
        self.scopes.append([Var(i, "int", 0, n, ro=True)])
        body = [["expr", ["inc", True, 1, iv]]]
        b = self.block()
        g = ["if", self.fcond(1), ["block", [["continue"]]], None]
        b2 = self.block()
        self.scopes.pop()
        self.loop_depth -= 1
        return [["block", [["decl", i, "int", ["int", 0]], ["do", ["block", body + b + [g] + b2], ["bin", "<", iv, ["int", n]]]]]]

    def shift(self, body, iv, down):
        return body

    def shift_e(self, e, iv, down):
        return e

    def s_switch(self):
        x = self.full(1)
        m = 3 + self.c(5)
        x = self.fit(x, 0, m)
        vals = list(range(0, m + 1))
        self.in_switch += 1
        ng = 1 + self.c(4)
        groups = []
        dflt = self.c(3)      # 0: none, 1: last, 2: somewhere
        for g in range(ng):
            vs = []
            for _ in range(1 + (self.c(3) == 2)):
                if vals:
                    v = vals.pop(self.c(len(vals)))
                    cs = [n for n, w in sorted(self.P.consts.items()) if w == v]
                    vs.append(["cst", cs[0]] if cs and self.c(2) else ["int", v] if self.c(4) or self.sh else ["bin", "+", ["int", v], ["int", 0]])
            if dflt == 2 and g == ng // 2:
                vs.append("default")
                dflt = -1
            if not vs:
                continue
            body = self.block()
            if self.sh:
                body = [b for b in body]
                end = ["break"]
                groups.append([vs, body + [end]])
            else:
                if not (self.c(4) == 3 and g < ng - 1):
                    if self.loop_depth and self.inloop_ctl and self.c(5) == 4:
                        body.append(["continue"])
                    else:
                        body.append(["break"])
                if self.c(4) == 3 and len(body) > 1:
                    body = [["block", body]]
                groups.append([vs, body])
        if dflt == 1:
            groups.append([["default"], self.block() + ([["break"]] if self.sh or self.c(2) else [])])
        self.in_switch -= 1
        return [["switch", x[0], groups]]

    def s_block(self):
        return [["block", self.block()]]

    def s_goto(self):
        if self.sh or not self.f("goto", 1):
            return self.s_if()
        L = self.fresh("L")
        k = self.c(5)
        if k >= 3 and self.loop_depth < 2 and not self.in_pure:
            return self.goto_in(L, k == 4)
        k = k % 3
        if k == 0:      # forward jump over statements
            b = self.block(1 + self.c(2))
            if any(x[0] == "decl" for x in b):
                b = [["block", b]]
            return [["if", self.fcond(1), ["goto", L] if self.c(2) else ["block", [["goto", L]]], None]] + b + [["label", L, self.stmt_simple()]]
        if self.loop_depth >= 2:
            return self.assign()
        # backward jump: a loop with a counter
        i = self.fresh("g")
        iv = ["var", i]
        n = 1 + self.c(4)
        self.loop_depth += 1
        self.scopes.append([Var(i, "int", 0, n, ro=True)])
        b = self.block()
        self.scopes.pop()
        self.loop_depth -= 1
        if any(x[0] == "decl" for x in b):
            b = [["block", b]]
        if k == 1:
            return [["decl", i, "int", ["int", 0]], ["label", L, ["expr", ["inc", True, 1, iv]]]] + b + [["if", ["bin", "<", iv, ["int", n]], ["goto", L], None]]
        # out of a nested block with its own locals
        L2 = self.fresh("L")
        inner = self.fresh("z")
        return [["decl", i, "int", ["int", 0]],
                ["while", ["int", 1], ["block", [["decl", inner, "int", iv], ["expr", ["inc", False, 1, iv]]] + b +
                                       [["if", ["bin", ">", ["bin", "+", ["var", inner], ["int", 1]], ["int", n - 1]], ["block", [["goto", L2]]], None]]]],
                ["label", L2, self.stmt_simple()]]

    def goto_in(self, L, loop):
        """A jump into a block (or the body of a loop) that has variables of its own."""
        i, a = self.fresh("g"), self.fresh("z")
        iv, av = ["var", i], ["var", a]
        n = 2 + self.c(3)
        pre = [["decl", self.fresh("z"), "int", ["int", self.c(50)] if self.c(2) else None] for _ in range(self.c(3))]
        k = self.c(3)
        post = [["decl", self.fresh("z"), "int", None] for _ in range(self.c(2))] if not loop else []
        self.loop_depth += 1
        self.scopes.append([Var(i, "int", 0, n, ro=True)])
        self.scopes.append([Var(a, "int", 0, n)])
        b = self.block(1 + self.c(2))
        x = self.full(1, 0, n)
        self.scopes.pop()
        c = self.block(1) if self.c(2) else []
        self.scopes.pop()
        self.loop_depth -= 1
        wr = lambda b: [["block", b]] if any(y[0] == "decl" for y in b) else b
        inner = pre + [["decl", a, "int", ["int", 0] if self.c(2) else None]] + wr(c) + post
        inner += [["label", L, ["expr", ["asg", "", av, iv]]], ["expr", ["inc", False, 1, iv]]]
        inner += wr(b)
        if not self.last_effects(x[0]):
            inner.append(["expr", ["asg", "", av, x[0]]])
        inner += self.out_int(av)
        di = [["decl", i, "int", ["int", 0]]]
        if loop:
            return di + [["if", self.fcond(1), ["goto", L], None], ["while", ["bin", "<", iv, ["int", n]], ["block", inner]]]
        return di + [["block", inner], ["if", ["bin", "<", iv, ["int", n]], ["goto", L], None]]

    def stmt_simple(self):
        k = self.c(2)
        if k == 0 or self.in_pure:
            return ["empty"] if self.f("empty_stmt", 1) else self.assign()[0]
        return self.out_int(self.full(1)[0])[0]

    def call_proc(self):
        fs = [n for n, f in sorted(self.funcs.items()) if not f["pure"] and n != self.fname and f["cost"] <= self.budget()]
        if not fs or self.in_pure:
            return self.out()
        n = self.pick(fs)
        f = self.funcs[n]
        self.cost += f["cost"]
        args = []
        for p in f["params"]:
            if p[0] == "region":
                a = self.region_arg(p)
                if a is None:
                    return self.out()
                args.append(a)
            elif p[0] == "struct":
                vs = self.vars(lambda v: v.kind == "struct" and v.t == p[1] or v.kind == "sptr" and v.t[1] == p[1] or v.kind == "sarr" and v.t[1] == p[1])
                if not vs:
                    return self.out()
                args.append(self.obj(self.pick(vs)))
            elif p[0] == "sptr":
                vs = self.vars(lambda v: v.kind == "sptr" and v.t == p[1] or v.kind == "struct" and ("p", v.t) == p[1])
                if not vs:
                    return self.out()
                v = self.pick(vs)
                args.append(["var", v.name] if v.kind == "sptr" else ["addr", ["var", v.name]])
            else:
                save = self.excl
                self.excl = self.excl | {v.name for v in self.vars(lambda v: False)}
                x = self.full(1)
                if self.last_effects(x[0]):
                    x = self.lit()
                self.excl = save
                args.append(self.fit(x, p[0], p[1])[0])
        call = ["call", n, args]
        if f["lo"] is None:
            return [["expr", call]]
        k = self.c(4)
        if k == 0:
            return [["expr", call]]
        if k == 1:
            return self.out_int(call)
        if k == 2 and self.sh or k == 2:
            return [["if", ["bin", self.pick(self.CMP), call, self.lit()[0]], ["block", self.block(1)], None]]
        vs = self.vars(lambda v: v.kind == "int" and not v.ro and v.loc is True and v.lo <= f["lo"] and v.hi >= f["hi"] and v.t == "int")
        if vs:
            return [["expr", ["asg", "", ["var", self.pick(vs).name], call]]]
        nm = self.fresh("r")
        self.scopes[-1].append(Var(nm, "int", f["lo"], f["hi"]))
        return [["decl", nm, "int", call]]

    def region_arg(self, p):
        vs = self.vars(lambda v: v.kind == "arr" and v.region[0] == p[1] and v.region[1] >= p[2] and v.region[2] >= p[3] and v.region[3] <= p[4])
        vs = [v for v in vs if v.region[2] == p[3] and v.region[3] == p[4]]
        if not vs:
            return None
        v = self.pick(vs)
        off = self.c(v.region[1] - p[2] + 1)
        return ["var", v.name] if not off else ["bin", "+", ["var", v.name], ["int", off]]

    STMTS = [("assign", 6), ("out", 4), ("store_elem", 5), ("decl_int", 3), ("s_if", 4), ("s_for", 4), ("s_switch", 2), ("out_str", 1), ("call_proc", 4),
             ("decl_ptr", 2), ("move_ptr", 2), ("walk", 1), ("s_block", 1), ("s_goto", 1), ("decl_arr", 2), ("decl_static", 1), ("mat_op", 1), ("struct_op", 2),
             ("do_continue", 1), ("bump", 2), ("test_assign", 1)]

    def stmt(self):
        self.fuel -= 1
        if self.fuel < 0:
            return self.assign()
        tot = []
        for n, w in self.STMTS + self.feats.get("stmts", []):
            w = self.feats.get(n, w)
            tot += [n] * w
        n = tot[self.c(len(tot))]
        return getattr(self, n)()

    def bump(self):
        """Post/pre increments used for their value."""
        vs = self.vars(lambda v: v.kind == "int" and not v.ro and v.hi - v.lo >= 100 and v.loc is True and v.t == "int")
        if not vs or self.in_pure and False:
            return self.assign()
        v = self.pick(vs)
        V = ["var", v.name]
        up = self.c(2)
        inc = ["inc", self.c(2) == 1, 1 if up else -1, V]
        guard = ["bin", "<", V, ["int", v.hi]] if up else ["bin", ">", V, ["int", v.lo + 1]]
        ws = self.vars(lambda w: w.kind == "int" and not w.ro and w.name != v.name and (w.loc is True or not self.in_pure) and w.t == "int")
        if not ws:
            return self.assign()
        w = self.pick(ws)
        save = self.excl
        self.excl = self.excl | {v.name}
        y = self.full(1, -1000, 1000)
        self.excl = save
        if self.last_effects(y[0]) or self.has_call(y[0]):
            y = self.lit()
        x = (["bin", self.pick(["+", "-"]), inc, y[0]], I32MIN, I32MAX, "int") if v.hi < 1 << 29 and v.lo > -(1 << 29) else (inc, v.lo, v.hi, "int")
        st = ["expr", ["asg", "", ["var", w.name], self.fit(x, w.lo, w.hi)[0]]]
        return [["if", guard, ["block", [st]], None]]

    def has_call(self, e):
        if isinstance(e, list):
            if e and e[0] in ("call", "icall"):
                return True
            return any(self.has_call(y) for y in e)
        return False

    def test_assign(self):
        """Assignment used as a loop or branch condition."""
        vs = self.vars(lambda v: v.kind == "int" and not v.ro and v.loc is True and v.lo <= 0 and v.hi >= 7 and v.t == "int")
        if not vs or self.loop_depth > 1:
            return self.assign()
        v = self.pick(vs)
        V = ["var", v.name]
        if self.c(2):
            x = self.full(1, max(v.lo, -100), min(v.hi, 100))
            if self.last_effects(x[0]):
                x = self.lit(0, 7)
            return [["if", self.pick([["bin", ">", ["paren", ["asg", "", V, x[0]]], ["int", 0]], ["paren", ["asg", "", V, x[0]]]]), ["block", self.block(1)], None]]
        self.loop_depth += 1
        save = self.excl
        v.ro, sv = True, v.ro
        body = self.block(1)
        v.ro = sv
        self.loop_depth -= 1
        return [["expr", ["asg", "", V, ["int", 1 + self.c(5)]]],
                ["while", self.pick([["bin", ">", ["inc", False, -1, V], ["int", 0]], ["inc", False, -1, V]]) if v.lo < 0 else ["bin", ">", V, ["int", 0]],
                 ["block", body + ([] if v.lo < 0 else [["expr", ["asg", "-", V, ["int", 1]]]])]]] + ([["expr", ["asg", "", V, ["int", 0]]]] if v.lo < 0 else [])

    # ---- structs
    def make_struct(self):
        if self.sh:
            return self.make_struct_sh()
        nm = self.fresh("S")
        k = self.c(10)
        if k >= 8:
            t, acc = self.make_union(nm), None
        elif k >= 6:
            # characters only: any size, odd ones included
            fields = []
            for _ in range(1 + self.c(3)):
                fn = self.fresh("f")
                n = self.pick([3, 1, 5, 7, 2, 9, 4])
                ft = self.pick(["char", "uchar"])
                fields.append((fn, ft if n == 1 else ("a", ft, n)))
                self.fr[nm, fn] = (-128, 127) if ft == "char" else (0, 255)
            self.P.structs[nm] = ("s", fields)
            t = ("s", nm)
        else:
            t = self.make_plain(nm)
        self.P.order.append(("struct" if t[0] == "s" else "union", nm))
        if self.c(4) == 3:
            td = self.fresh("T")
            self.P.typedefs[t] = td
            self.P.order.append(("typedef", t))
        return t, self.accesses(t)

    def make_plain(self, nm, anon=0):
        fields = []
        for i in range(1 + self.c(4 if not anon else 3)):
            fn = self.fresh("f")
            kk = self.c(9)
            if kk < 4:
                ft, lo, hi = self.pick([("int", -1000, 1000), ("char", -128, 127), ("short", -32768, 32767), ("uchar", 0, 255), ("int", I32MIN, I32MAX), ("uint", 0, I32MAX)])
                fields.append((fn, ft))
                self.fr[nm, fn] = lo, hi
            elif kk == 4:
                et, lo, hi = self.pick([("int", -1000, 1000), ("char", -128, 127), ("short", -32768, 32767)])
                n = self.pick([2, 4, 3, 1, 5])
                fields.append((fn, ("a", et, n)))
                self.fr[nm, fn] = lo, hi
            elif kk >= 7 and anon < 3:
                n2 = nm + "_%d" % i
                fields.append((None, self.make_union(n2, anon + 1) if kk == 8 else self.make_plain(n2, anon + 1)))
            else:
                inner = list(self.structs)
                if inner and not (anon and kk != 5):
                    st, sacc = self.pick(inner)
                    fields.append((fn, st if kk == 5 else ("a", st, 2)))
                else:
                    fields.append((fn, "int"))
                    self.fr[nm, fn] = -1000, 1000
        if not anon and self.c(4) == 3:
            fn = self.fresh("f")
            fields.append((fn, ("p", ("s", nm))))
        self.P.structs[nm] = ("s", fields)
        return ("s", nm)

    def make_union(self, nm, anon=0):
        """Either one member is in use, or the first covers the others and all are read."""
        fields = []
        if self.c(3) == 2:
            sg = self.c(2)
            fields.append((self.fresh("f"), ("a", "char" if sg else "uchar", self.pick([8, 9, 5, 4, 11]))))
            self.fr[nm, fields[0][0]] = (-128, 127) if sg else (0, 255)
            for _ in range(1 + self.c(2)):
                ft, lo, hi = self.pick([("int", I32MIN, I32MAX), ("short", -32768, 32767), ("uchar", 0, 255), ("ushort", 0, 65535), ("char", -128, 127)])
                fields.append((self.fresh("f"), ft))
                self.fr[nm, fields[-1][0]] = lo, hi
            self.punned.add(nm)
        else:
            for _ in range(1 + self.c(3)):
                k = self.c(6)
                ft, lo, hi = self.pick([("int", -1000, 1000), ("short", -3000, 3000), ("char", -128, 127), ("uchar", 0, 255)])
                if k >= 4:
                    ft = ("a", ft, self.pick([3, 5, 2, 7]))
                elif k == 3 and self.structs:
                    ft = self.pick(self.structs)[0]
                fields.append((self.fresh("f"), ft))
                self.fr[nm, fields[-1][0]] = lo, hi
        self.P.structs[nm] = ("u", fields)
        return ("u", nm)

    def make_struct_sh(self):
        nm = self.fresh("S")
        fields, acc = [], []
        for _ in range(1 + self.c(4)):
            fn = self.fresh("f")
            lo, hi = self.pick(RANGES[:5])
            ft = self.pick(["int", "int", "char"])
            if ft == "char":
                lo, hi = 0, 127
            fields.append((fn, ft))
            acc.append((fn, [(".", fn)], lo, hi, ft))
        if self.c(4) == 3:
            fn = self.fresh("f")
            fields.append((fn, ("p", ("s", nm))))
        self.P.structs[nm] = ("s", fields)
        self.P.order.append(("struct", nm))
        if self.c(4) == 3:
            self.P.typedefs[("s", nm)] = nm
            self.P.order.append(("typedef", ("s", nm)))
        return ("s", nm), acc

    structs = ()

    def live(self, t):
        """(owner, member, type) of the members in use, those of anonymous members included."""
        kind, fields = self.P.structs[t[1]]
        if kind == "u" and t[1] not in self.punned:
            fields = fields[:1]
        for f, ft in fields:
            if f is None:
                yield from self.live(ft)
            else:
                yield t[1], f, ft

    def accesses(self, t):
        """[(name, path, lo, hi, type)] of the integers that can be read in an object of type t."""
        acc = []
        for own, f, ft in self.live(t):
            path = [(".", f)]
            while isinstance(ft, tuple) and ft[0] == "a":
                path.append(("[", ft[2]))
                ft = ft[1]
            if isinstance(ft, tuple) and ft[0] in "su":
                acc += [(f, path + a[1], a[2], a[3], a[4]) for a in self.accesses(ft)]
            elif isinstance(ft, str):
                acc.append((f, path) + self.fr[own, f] + (ft,))
        return acc

    def zero_init(self, name, t):
        """Statements that initialise every field of struct variable/pointer expression."""
        out = []

        def go(e, t, r=None, sel="fld"):
            if isinstance(t, tuple) and t[0] == "a":
                for i in range(t[2]):
                    go(["idx", e, ["int", i]], t[1], r)
            elif isinstance(t, tuple) and t[0] in ("s", "u"):
                un = set()
                for own, f, ft in self.live(t):
                    if own in self.punned:      # the first member covers the others
                        if own in un:
                            continue
                        un.add(own)
                    go([sel, e, f], ft, self.fr.get((own, f)))
            elif isinstance(t, tuple) and t[0] == "p":
                out.append(["expr", ["asg", "", e, ["int", 0]]])
            else:
                out.append(["expr", ["asg", "", e, self.field_value(r, False)]])
        return out, go

    def field_value(self, r, const):
        lo, hi = r or (0, 50)
        if not const and self.c(4) == 3:
            x = self.full(1, lo, hi)
            if not self.last_effects(x[0]):
                return x[0]
        k = self.c(4)
        v = self.c(50) if k < 2 else lo if k == 2 else hi
        v = min(max(v, lo), hi)
        return ["int", v if v > I32MIN else v + 1]

    def init_list(self, t, const, r=None, own=None):
        """An initializer for type t, possibly with fewer elements than members."""
        if isinstance(t, tuple) and t[0] == "a":
            n = 1 + self.c(t[2]) if self.c(2) else t[2]
            if t[1] in ("char",) and self.c(3) == 2:
                return ["str", "abcdefghijk"[:self.c(t[2])]]
            return ["list", [self.init_list(t[1], const, r) for _ in range(n)]]
        if isinstance(t, tuple) and t[0] in ("s", "u"):
            fs = self.P.structs[t[1]][1]
            n = 1 if t[0] == "u" else len(fs) - (self.c(len(fs)) if self.c(2) else 0)
            return ["list", [self.init_list(ft, const, self.fr.get((t[1], f))) for f, ft in fs[:n]]]
        if isinstance(t, tuple):
            return ["int", 0]
        return self.field_value(r, const)

    def decl_struct(self):
        if not self.structs or self.in_pure:
            return self.decl_int()
        t, acc = self.pick(self.structs)
        nm = self.fresh("o")
        out, go = self.zero_init(nm, t)
        if self.sh:
            E = ["var", nm]
            for f, ft in self.P.structs[t[1]][1]:
                out.append(["expr", ["asg", "", ["arrow", E, f], ["int", 0 if isinstance(ft, tuple) else self.c(50)]]])
            self.scopes[-1].append(Var(nm, ("p", t), kind="sptr", region=acc))
            return [["decl", nm, ("p", t), ["call", "malloc", [["sizeof", t]]]]] + out
        if not acc:
            return self.decl_int()
        k = self.c(8)
        if k == 2:
            go(["var", nm], t, None, "arrow")
            self.scopes[-1].append(Var(nm, ("p", t), kind="sptr", region=acc))
            return [["decl", nm, ("p", t), ["call", "malloc", [["sizeof", t]]]]] + out
        if k in (3, 4):
            d = [["decl", nm, t, self.init_list(t, False)]]
            self.scopes[-1].append(Var(nm, t, kind="struct", region=acc))
            return d
        if k == 5:
            vs = self.vars(lambda v: v.kind == "struct" and v.t == t or v.kind == "sptr" and v.t == ("p", t) or v.kind == "sarr" and v.t[1] == t)
            if vs:
                v = self.pick(vs)
                self.scopes[-1].append(Var(nm, t, kind="struct", region=acc))
                return [["decl", nm, t, self.obj(v)]]
        if k == 6:
            n = self.pick([2, 3, 1])
            at = ("a", t, n)
            if self.c(2):
                d = [["decl", nm, at, self.init_list(at, False)]]
            else:
                go(["var", nm], at)
                d = [["decl", nm, at, None]] + out
            self.scopes[-1].append(Var(nm, at, kind="sarr", region=[(a[0], [("[", n)] + a[1], a[2], a[3], a[4]) for a in acc]))
            return d
        if k == 7 and self.loop_depth == 0:
            self.scopes[-1].append(Var(nm, t, kind="struct", region=acc, loc="static"))
            return [["decl", nm, t, self.init_list(t, True) if self.c(2) else None, "static"]]
        go(["var", nm], t)
        self.scopes[-1].append(Var(nm, t, kind="struct", region=acc))
        return [["decl", nm, t, None]] + out

    def obj(self, v):
        """Lvalue of the aggregate that v names, points to or is made of."""
        if v.kind == "struct":
            return ["var", v.name]
        if v.kind == "sarr":
            return ["idx", ["var", v.name], self.index(v.t[2], 1)]
        return ["deref", ["var", v.name]]

    def struct_op(self):
        if self.in_pure:
            return self.assign()
        vs = self.vars(lambda v: v.kind in ("struct", "sptr", "sarr"))
        if not vs or self.c(3) == 0:
            return self.decl_struct()
        v = self.pick(vs)
        k = self.c(7 if not self.sh else 4)
        ty = v.t if v.kind == "struct" else v.t[1]
        if k in (0, 4) and not self.sh:
            # copy between two objects of one type
            ws = [w for w in vs if (w.t if w.kind == "struct" else w.t[1]) == ty and (w.name != v.name)]
            if ws:
                w = self.pick(ws)
                if self.c(2):
                    v, w = w, v
                return [["expr", ["asg", "", self.obj(v), self.obj(w)]]]
        if k == 1 and v.kind in ("struct", "sarr"):
            nm = self.fresh("k")
            acc = v.region if v.kind == "struct" else [(a[0], a[1][1:], a[2], a[3], a[4]) for a in v.region]
            o = self.obj(v)
            self.scopes[-1].append(Var(nm, ("p", ty), kind="sptr", region=acc))
            return [["decl", nm, ("p", ty), ["addr", o]]]
        if k == 5:
            # sizes
            x = ["sizeof", ty] if self.c(2) else ["sizeofe", self.obj(v)] if self.c(2) else ["sizeofe", self.field(v)[0]]
            return self.out_int(["cast", "int", x])
        if k == 6:
            # pointer to a member
            x = self.field(v)
            if not self.last_effects(x[0]):
                nm = self.fresh("q")
                self.scopes[-1].append(Var(nm, ("p", x[3]), kind="ptr", region=(x[3], 1, x[1], x[2])))
                return [["decl", nm, ("p", x[3]), ["addr", x[0]]]]
        x = self.field(v)
        if self.last_effects(x[0]):
            return self.assign()
        if k == 2:
            return self.out_int(x[0])
        return [self.assign_lv(x[0], x[1], x[2], x[3])]

    # ---- declarations at file level
    def make_globals(self):
        if self.c(2):
            names = [self.fresh("E").upper() for _ in range(1 + self.c(4))]
            v, items = 0, []
            for nme in names:
                ex = self.c(3) == 2
                if ex:
                    v = self.c(10) if self.c(3) < 2 else self.pick([-1, -5, -100, -128, 127, 255, -32768, 1000, 65536, I32MAX - 9, I32MIN + 1])
                items.append(((nme, v), ex))
                self.P.consts[nme] = v
                v += 1
            tag = self.fresh("En") if self.c(2) else "_" + str(self.n)
            self.P.enums.append((tag, items))
            self.P.order.append(("enum", tag))
        self.structs = []
        for _ in range((1 + self.c(4) if self.f("aggr", 0) else self.c(3)) if self.f("structs", 1) else 0):
            self.structs.append(self.make_struct())
        for _ in range(1 + self.c(4)):
            nm = self.fresh("g")
            k = self.c(5)
            if k < 2:
                lo, hi = self.pick(RANGES)
                t = "int"
                if not self.sh and self.c(4) == 3:
                    t, lo, hi = self.pick([("char", -128, 127), ("short", -32768, 32767), ("uchar", 0, 255), ("uint", 0, I32MAX)])
                v = min(max(self.c(200) - 100, lo), hi)
                init = ["int", v] if self.c(3) else None
                if init is None and not lo <= 0 <= hi:
                    init = ["int", v]
                self.P.globals.append((nm, t, init))
                self.scopes[0].append(Var(nm, t, lo, hi, loc=False))
            elif k in (2, 3):
                et, lo, hi = self.pick([("int", -1000, 1000), ("int", I32MIN, I32MAX), ("char", -128, 127), ("short", -32768, 32767), ("uchar", 0, 255)] if not self.sh else [("int", -1000, 1000), ("int", I32MIN, I32MAX), ("char", 0, 127)])
                n = self.pick([4, 8, 5, 16, 2, 20])
                init, infer = None, False
                if self.c(2):
                    m = 1 + self.c(min(n, 8))
                    init = ["list", [["int", min(max(self.c(200) - 100, lo if not self.sh else max(lo, 0)), hi)] for _ in range(m)]]
                    if m == n and self.c(2):
                        infer = True
                    if et == "char" and self.c(2) and not self.sh:
                        init = ["str", "hello world 123456"[:self.c(n)]]
                        infer = False
                self.P.globals.append((nm, ("a", et, n), init, infer))
                self.scopes[0].append(Var(nm, ("a", et, n), kind="arr", region=(et, n, lo, hi), loc=False))
            else:
                if not self.sh and self.structs:
                    t, acc = self.pick(self.structs)
                    k = self.c(4)
                    if k == 3:
                        n = self.pick([2, 3])
                        at = ("a", t, n)
                        self.P.globals.append((nm, at, self.init_list(at, True) if self.c(2) else None))
                        self.scopes[0].append(Var(nm, at, kind="sarr", region=[(a[0], [("[", n)] + a[1], a[2], a[3], a[4]) for a in acc], loc=False))
                    else:
                        self.P.globals.append((nm, t, self.init_list(t, True) if k == 2 else None))
                        self.scopes[0].append(Var(nm, t, kind="struct", region=acc, loc=False))
                else:
                    self.P.globals.append((nm, ("p", "char"), ["str", "text" + str(self.c(100))]))
            self.P.order.append(("global", nm))

    def make_func(self, pure):
        nm = self.fresh("fn")
        self.fname = nm
        params, info = [], []
        sc = []
        for _ in range(1 + self.c(3)):
            p = self.fresh("x")
            lo, hi = self.pick(RANGES[:8])
            t = "int"
            if not self.sh and self.c(8) == 7:
                t, lo, hi = self.pick([("char", -128, 127), ("short", -32768, 32767), ("uchar", 0, 255)])
            params.append((p, t))
            info.append((lo, hi, t))
            sc.append(Var(p, t, lo, hi))
        kind = self.c(4)
        save = self.scopes, self.fuel, self.cost, self.loop_depth, self.in_pure
        self.cost, self.loop_depth, self.in_pure = 3, 0, pure
        self.fuel = 2 + self.c(5)
        if pure:
            self.scopes = [[], sc]
        else:
            self.scopes = [self.scopes[0], sc]
            if self.c(2):
                # array parameter
                et, n, lo, hi = "int", self.pick([2, 4]), -1000, 1000
                if self.c(3) == 2 and not self.sh:
                    et, lo, hi = "char", -128, 127
                p = self.fresh("b")
                params.append((p, ("p", et)))
                info.append(("region", et, n, lo, hi))
                sc.append(Var(p, ("p", et), kind="arr", region=(et, n, lo, hi)))
            if self.structs and self.c(3) == 2:
                t, acc = self.pick(self.structs)
                p = self.fresh("u")
                if not self.sh and self.c(2):
                    params.append((p, t))
                    info.append(("struct", t))
                    sc.append(Var(p, t, kind="struct", region=acc))
                else:
                    params.append((p, ("p", t)))
                    info.append(("sptr", ("p", t)))
                    sc.append(Var(p, ("p", t), kind="sptr", region=acc))
        rlo, rhi = self.pick(RANGES)
        rt = "int"
        body = []
        rec = kind >= 2
        if rec:
            fu = self.fresh("n")
            params.insert(0, (fu, "int"))
            sc.insert(0, Var(fu, "int", 1, 6, ro=True))
            body.append(["if", ["bin", "<=", ["var", fu], ["int", 0]], ["block", [["return", self.full(1, rlo, rhi)[0]]]] if self.c(2) else ["return", ["int", min(max(1, rlo), rhi)]], None])
        locs = 1 + self.c(3)
        for _ in range(locs):
            body += self.stmt() if self.c(3) else self.decl_int()
        if rec:
            call = self.rec_call(nm, params, info, fu)
            two = self.c(3) == 2 and pure
            nm2 = self.fresh("t")
            form = self.c(3)
            if form == 0 or not pure:
                body.append(["decl", nm2, "int", call])
                sc.append(Var(nm2, "int", rlo, rhi))
                for _ in range(self.c(2)):
                    body += self.stmt()
                body.append(["return", self.full(2, rlo, rhi)[0]])
            else:
                # result combined with locals that must survive the call
                vs = self.vars(lambda v: v.kind == "int" and v.loc is True)
                v = self.pick(vs)
                c2 = self.rec_call(nm, params, info, fu)
                lim = lambda c: c if rhi - rlo < 1 << 20 else ["bin", "%", c, ["int", 1000]]
                x = ["bin", self.pick(["+", "-", "^"]), self.fit((["var", v.name], v.lo, v.hi, v.t), -1000, 1000)[0], lim(call)]
                if two:
                    x = ["bin", "+", x, lim(c2)]
                body.append(["return", self.fit((x, I32MIN, I32MAX, "int"), rlo, rhi)[0]])
            mult = 64 if two else 6
        else:
            mult = 1
            if self.c(3) == 2 and self.fuel > 0:
                body.append(["if", self.fcond(1), ["block", [["return", self.full(1, rlo, rhi)[0]]]], None])
            if pure or self.c(3):
                body.append(["return", self.full(2, rlo, rhi)[0]])
            else:
                rlo = rhi = None
                rt = "void"
                body = [x for x in body if not self.has_return(x)]
        cost = (self.cost + 5 * len(body)) * mult
        self.scopes, self.fuel, self.cost, self.loop_depth, self.in_pure = save
        self.P.funcs.append((nm, rt, params, body))
        self.P.order.append(("func", nm))
        if rec:
            info.insert(0, (0, 5 if not two_calls(body, nm) else 4, "int"))
        self.funcs[nm] = dict(lo=rlo, hi=rhi, params=info, pure=pure, cost=cost, rt="int")
        self.fname = None
        if pure and not self.sh and self.c(3) == 2:
            fp = self.fresh("fp")
            self.P.globals.append((fp, ("p", ("f", rt, tuple(t for _, t in params))), ["var", nm]))
            self.P.order.append(("global", fp))
            self.funcs[nm]["fp"] = fp

    def has_return(self, s):
        if isinstance(s, list):
            if s and s[0] == "return":
                return True
            return any(self.has_return(x) for x in s)
        return False

    def rec_call(self, nm, params, info, fu):
        args = [["bin", "-", ["var", fu], ["int", 1]]]
        for (p, t), i in zip(params[1:], info):
            if i[0] in ("region", "struct", "sptr"):
                args.append(["var", p])
            else:
                sv, self.nocall = getattr(self, "nocall", False), True
                x = self.full(1, i[0], i[1])
                self.nocall = sv
                if self.last_effects(x[0]):
                    x = (["int", min(max(1, i[0]), i[1])],)
                args.append(x[0])
        return ["call", nm, args]

    def helpers(self):
        """pi(n): prints n and a blank through putchar, for any int."""
        P = self.P
        n = ["var", "n"]
        P.funcs.append(("pn", "void", [("n", "int")], [
            ["if", ["bin", "<", n, ["int", -9]], ["expr", ["call", "pn", [["bin", "/", n, ["int", 10]]]]], None],
            ["expr", ["call", "putchar", [["bin", "-", ["int", 48], ["bin", "%", n, ["int", 10]]]]]]]))
        P.funcs.append(("pi", "void", [("n", "int")], [
            ["if", ["bin", "<", n, ["int", 0]], ["block", [["expr", ["call", "putchar", [["int", 45]]]], ["expr", ["call", "pn", [n]]]]],
             ["block", [["expr", ["call", "pn", [["bin", "-", ["int", 0], n]]]]]]],
            ["expr", ["call", "putchar", [["int", 32]]]]]))
        P.order += [("func", "pn"), ("func", "pi")]

    def dump(self):
        """Prints every global at the end."""
        out = []
        for v in self.scopes[0]:
            if v.kind == "int":
                out += self.out_int(["var", v.name])
            elif v.kind == "arr":
                i = self.fresh("i")
                iv = ["var", i]
                out.append(["block", [["decl", i, "int", ["int", 0]], ["while", ["bin", "<", iv, ["int", v.region[1]]],
                                      ["block", self.out_int(["idx", ["var", v.name], iv]) + [["expr", ["asg", "+", iv, ["int", 1]]]]]]]])
            elif v.kind in ("struct", "sarr"):
                for a in v.region:
                    e = ["var", v.name]
                    for p in a[1]:
                        e = ["idx", e, ["int", p[1] - 1]] if p[0] == "[" else ["fld", e, p[1]]
                    out += self.out_int(e)
        return out

    def program(self, main_extra=None):
        if not self.sh:
            self.helpers()
        self.make_globals()
        nf = self.c(4) if self.f("funcs", 1) else 0
        for i in range(nf):
            self.make_func(self.c(2) == 0)
        self.scopes.append([])
        body = self.decl_int()
        if self.f("init_arrays", 0):
            for g in self.P.globals:
                if isinstance(g[1], tuple) and g[1][0] == "a" and g[2] is None:
                    i = self.fresh("i")
                    iv = ["var", i]
                    body.insert(0, ["block", [["decl", i, "int", ["int", 0]], ["while", ["bin", "<", iv, ["int", g[1][2]]],
                                   ["block", [["expr", ["asg", "", ["idx", ["var", g[0]], iv], ["int", 0]]], ["expr", ["asg", "+", iv, ["int", 1]]]]]]]])
        if main_extra:
            body += main_extra(self)
        while self.fuel > 0:
            body += self.stmt()
        body += self.dump()
        body += self.endstmts
        ret = self.full(1, 0, 127)
        body.append(["return", ret[0]])
        self.scopes.pop()
        self.P.funcs.append(("main", "int", self.main_params(), body))
        self.P.order.append(("func", "main"))
        if self.sh:
            import shfix
            shfix.program(self.P)
        return self.P

    def main_params(self):
        return []


def two_calls(body, nm):
    k = [0]

    def go(x):
        if isinstance(x, list):
            if len(x) > 1 and x[0] == "call" and x[1] == nm:
                k[0] += 1
            for y in x:
                go(y)
    go(body)
    return k[0] > 1


def any_continue(body):
    """continue belonging to this loop level."""
    def go(x):
        if isinstance(x, list):
            if x and x[0] in ("while", "for", "do"):
                return False
            if x and x[0] == "continue":
                return True
            return any(go(y) for y in x)
        return False
    return any(go(x) for x in body)
