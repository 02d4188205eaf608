"""A small C subset: AST (nested lists), C printer and reference interpreter.

The interpreter is the oracle for what a C program does: it executes the AST
against a simulated kernel (lib/kernel.py) and rejects (raises UB) a program as
soon as its behaviour stops being defined by C for the data model chosen, so
that only well-defined programs are ever used to judge pnut.

Models: i386 (int 4, pointer 4), x64 (pointer 8), sh (every scalar is one cell).
"""
import re
import kernel as K

MODELS = {"i386": dict(ptr=4, long=4, cell=False), "x64": dict(ptr=8, long=8, cell=False), "sh": dict(ptr=1, long=1, cell=True)}
RANK = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 3, "uint": 3, "long": 4, "llong": 5, "ullong": 5}
SIZES = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "llong": 8, "ullong": 8}
UNSIGNED = {"uchar", "ushort", "uint", "ullong"}
CNAME = {"char": "char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short", "int": "int", "uint": "unsigned int", "long": "long", "llong": "long long", "ullong": "unsigned long long", "void": "void"}
INTS = set(RANK)
I32MIN, I32MAX = -2 ** 31, 2 ** 31 - 1


class UB(Exception):
    """The program is not well defined (or leaves the supported subset): reject it."""


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class FailStop(Exception):
    """Shell semantics: the script ends here with a non-zero status."""
    def __init__(self, msg=b""):
        self.msg = msg


class Obj:
    __slots__ = ("size", "cells", "alive", "ro", "heap", "name")

    def __init__(self, size, name="", heap=False):
        self.size, self.cells, self.alive, self.ro, self.heap, self.name = size, {}, True, False, heap, name


UNINIT = object()
BREAK, CONT, RET = "b", "c", "r"


def is_ptr(t):
    return isinstance(t, tuple) and t[0] == "p"


def is_arr(t):
    return isinstance(t, tuple) and t[0] == "a"


def is_agg(t):
    return isinstance(t, tuple) and t[0] in ("s", "u")


class Prog:
    """structs: name -> (kind, [(field, type)]); enums: [(name, [(const, value)])];
    globals: [(name, type, init or None)]; funcs: [(name, ret, [(pname, type)], body)]; order: printing order."""
    def __init__(self):
        self.structs, self.enums, self.globals, self.funcs, self.order = {}, [], [], [], []
        self.typedefs = {}
        self.consts = {}


def tt(t):
    """JSON lists back to tuples."""
    return tuple(tt(x) for x in t) if isinstance(t, (list, tuple)) else t


class Interp:
    def __init__(self, prog, model, kern, argv=(b"prog",), limit=20000, builtins="native", heap=2 ** 30, depth=60):
        self.p, self.model, self.m, self.k = prog, model, MODELS[model], kern
        self.cell = self.m["cell"]
        self.code = 0
        self.chi = 127          # largest value a char is used for in shell programs
        self.argv, self.limit, self.steps, self.depth, self.maxdepth = argv, limit, 0, 0, depth
        self.bmode = builtins
        self.globals, self.gtypes = {}, {}
        self.funcs = {}
        self.sigs = {f[0]: (f[1], [p[1] for p in f[2]]) for f in prog.funcs}
        self.consts = dict(prog.consts)
        self.strs = {}
        self.statics = []
        self.layouts = {}
        self.feat = set()
        self.malloc_bytes = 0
        self.heap_limit = None
        self.events = 0
        self.shfd = {0: 0, 1: 1, 2: 2}
        self.marks = []

    # ---- types
    def size(self, t):
        if self.cell:
            if is_arr(t):
                return t[2] * self.size(t[1])
            if is_agg(t):
                return self.layout(t)[0]
            return 1
        if isinstance(t, str):
            if t == "void":
                return 1
            return self.m["long"] if t == "long" else SIZES[t]
        if t[0] == "p":
            return self.m["ptr"]
        if t[0] == "a":
            return t[2] * self.size(t[1])
        if is_agg(t):
            return self.layout(t)[0]
        raise UB("size of %r" % (t,))

    def align(self, t):
        if self.cell:
            return 1
        if is_arr(t):
            return self.align(t[1])
        if is_agg(t):
            return self.layout(t)[1]
        return self.size(t)

    def layout(self, t):
        r = self.layouts.get(t)
        if r is None:
            kind, fields = self.p.structs[t[1]]
            off, mx, al, offs, direct = 0, 0, 1, {}, []
            for f, ft in fields:
                a = self.align(ft)
                al = max(al, a)
                if kind == "s":
                    off = (off + a - 1) // a * a
                d = off
                direct.append((d, ft))
                if f is None:       # anonymous member: its members belong to this type
                    for g, (d2, gt) in self.layout(ft)[2].items():
                        offs[g] = (d + d2, gt)
                else:
                    offs[f] = (d, ft)
                if kind == "s":
                    off += self.size(ft)
                else:
                    mx = max(mx, self.size(ft))
            n = off if kind == "s" else mx
            r = self.layouts[t] = ((n + al - 1) // al * al, al, offs, direct)
        return r

    def conv(self, v, t):
        """Value v converted to scalar type t."""
        if self.cell:
            if isinstance(v, int) and not I32MIN <= v <= I32MAX:
                raise UB("overflow")
            if t == "char" and isinstance(v, int) and not 0 <= v <= self.chi:
                raise UB("char range (sh)")
            return v
        if isinstance(t, str):
            if not isinstance(v, int):
                raise UB("pointer to integer")
            n = 8 * self.size(t)
            if t in UNSIGNED:
                return v & ((1 << n) - 1)
            v &= (1 << n) - 1
            return v - (1 << n) if v >> (n - 1) else v
        return v

    # ---- memory
    def load(self, obj, off, t):
        if not obj.alive:
            raise UB("dead object")
        e = obj.cells.get(off)
        n = self.size(t)
        if e is None or e[0] != n:
            return self.load_mixed(obj, off, n, t)
        v = e[1]
        if isinstance(v, int):
            if is_ptr(t):
                if v:
                    raise UB("integer as pointer")
                return v
            if not self.cell and (v < 0) != (t not in UNSIGNED and v < 0 or False):
                pass
            return self.norm(v, t)
        if not is_ptr(t):
            raise UB("pointer read as integer")
        return v

    def norm(self, v, t):
        if self.cell:
            return v
        n = 8 * self.size(t)
        v &= (1 << n) - 1
        if t not in UNSIGNED and v >> (n - 1):
            v -= 1 << n
        return v

    def load_mixed(self, obj, off, n, t):
        if self.cell or off < 0 or off + n > obj.size or is_ptr(t):
            raise UB("uninitialised or out of bounds read %s+%d" % (obj.name, off))
        bs = {}
        for o in range(off - 7, off + n):
            e = obj.cells.get(o)
            if e:
                if not isinstance(e[1], int):
                    if o + e[0] > off:
                        raise UB("pointer bytes")
                    continue
                for i in range(e[0]):
                    bs[o + i] = (e[1] >> (8 * i)) & 255
        v = 0
        for i in range(n):
            if off + i not in bs:
                raise UB("uninitialised read")
            v |= bs[off + i] << (8 * i)
        return self.norm(v, t)

    def store(self, obj, off, t, v):
        n = self.size(t)
        if not obj.alive:
            raise UB("dead object")
        if off < 0 or off + n > obj.size:
            raise UB("out of bounds write")
        if obj.ro:
            raise UB("write to read-only object")
        c = obj.cells
        e = c.get(off)
        if (e is None or e[0] != n) and not self.cell:
            for o in range(off - 7, off + n):
                e = c.get(o)
                if e and o + e[0] > off and o != off or e and o == off and e[0] > n:
                    del c[o]
                    if isinstance(e[1], int):
                        for i in range(e[0]):
                            if not off <= o + i < off + n:
                                c[o + i] = (1, (e[1] >> (8 * i)) & 255)
        c[off] = (n, v)

    def copy_agg(self, dst, doff, src, soff, n):
        if not (dst.alive and src.alive) or soff < 0 or soff + n > src.size or doff < 0 or doff + n > dst.size:
            raise UB("aggregate copy out of bounds")
        items = [(o, e) for o, e in src.cells.items() if soff <= o < soff + n]
        for o in [o for o in dst.cells if doff <= o < doff + n]:
            del dst.cells[o]
        for o, e in items:
            dst.cells[doff + o - soff] = e

    def new_str(self, data):
        o = Obj(len(data) + 1, "string")
        o.cells = {i: (1, c if c < 128 or self.cell else c - 256) for i, c in enumerate(data)}
        o.cells[len(data)] = (1, 0)
        o.ro = True
        return o

    def cstr(self, v):
        if isinstance(v, int):
            raise UB("null string")
        o, off = v
        out = bytearray()
        while True:
            c = self.load(o, off, "char")
            if c == 0:
                return bytes(out)
            out.append(c & 255)
            off += 1

    # ---- expressions: -> (type, fn(frame))
    def promote(self, t):
        if self.cell:
            return "int"
        return "int" if RANK.get(t, 9) < 3 else t

    def usual(self, a, b):
        a, b = self.promote(a), self.promote(b)
        if a == b:
            return a
        for t in ("ullong", "llong", "long"):
            if t in (a, b):
                return t
        return "uint"

    def check(self, v, t):
        """Result of integer arithmetic in (promoted) type t."""
        if t == "uint":
            return v & 0xffffffff
        if t == "ullong":
            return v & 0xffffffffffffffff
        if t == "llong" or t == "long" and self.m["ptr"] == 8:
            if not -2 ** 63 <= v < 2 ** 63:
                raise UB("overflow")
            return v
        if not I32MIN <= v <= I32MAX:
            raise UB("overflow")
        return v

    def rv(self, e):
        """Compiles an rvalue."""
        op = e[0]
        return getattr(self, "x_" + op)(e)

    def x_int(self, e):
        v = e[1]
        return ("int" if I32MIN <= v <= I32MAX else "long"), lambda f: v

    def x_lit(self, e):
        v = e[1]
        return e[2], lambda f: v

    x_chr = x_int

    def x_cst(self, e):
        v = self.consts[e[1]]
        return "int", lambda f: v

    def x_paren(self, e):
        return self.rv(e[1])

    def x_str(self, e):
        data = e[1].encode("latin1")
        o = self.new_str(data)
        r = (o, 0)
        return ("p", "char"), lambda f: r

    def x_sizeof(self, e):
        n = self.size(tt(e[1]))
        return "int", lambda f: n

    def x_sizeofe(self, e):
        if e[1][0] == "str":
            n = len(e[1][1]) + 1
            return "int", lambda f: n
        try:
            t, _ = self.lv(e[1])[0:2]
        except UB:
            t, _ = self.rv(e[1])
        n = self.size(t)
        return "int", lambda f: n

    def lv(self, e):
        """Compiles an lvalue: -> (type, 'slot', index) or (type, 'mem', fn -> (obj, off))."""
        op = e[0]
        if op == "paren":
            return self.lv(e[1])
        if op == "var":
            n = e[1]
            s = self.scope_find(n)
            if s is not None:
                t, idx, direct = s
                if direct == "static":
                    o = idx
                    return t, "mem", lambda f: (o, 0)
                if direct:
                    return t, "slot", idx

                def fn(f):
                    o = f[idx]
                    if o is None:
                        raise UB("jumped over declaration")
                    return o, 0
                return t, "mem", fn
            if n in self.gtypes:
                o = self.globals[n]
                return self.gtypes[n], "mem", lambda f: (o, 0)
            raise UB("unknown variable " + n)
        if op == "idx":
            t, fp = self.rv(e[1])
            ti, fi = self.rv(e[2])
            if not is_ptr(t):
                t, fp, ti, fi = ti, fi, t, fp
            if not is_ptr(t):
                raise UB("index of non pointer")
            w = self.size(t[1])

            def fn(f):
                p = fp(f)
                i = fi(f)
                if isinstance(p, int) or not isinstance(i, int):
                    raise UB("null index")
                return p[0], p[1] + i * w
            return t[1], "mem", fn
        if op == "deref":
            t, fp = self.rv(e[1])
            if not is_ptr(t):
                raise UB("deref of non pointer")

            def fn(f):
                p = fp(f)
                if isinstance(p, int):
                    raise UB("null deref")
                return p
            return t[1], "mem", fn
        if op == "fld":
            t, k, fn0 = self.lv(e[1])
            if not is_agg(t) or k != "mem":
                raise UB("field of non struct")
            d, ft = self.layout(t)[2][e[2]]

            def fn(f):
                o, off = fn0(f)
                return o, off + d
            return ft, "mem", fn
        if op == "arrow":
            t, fp = self.rv(e[1])
            if not is_ptr(t) or not is_agg(t[1]):
                raise UB("arrow")
            d, ft = self.layout(t[1])[2][e[2]]

            def fn(f):
                p = fp(f)
                if isinstance(p, int):
                    raise UB("null arrow")
                return p[0], p[1] + d
            return ft, "mem", fn
        raise UB("not an lvalue: " + op)

    def load_lv(self, e):
        t, k, x = self.lv(e)
        if is_arr(t):
            def fa(f):
                return x(f)
            return ("p", t[1]), fa
        if is_agg(t):
            return t, x
        if k == "slot":
            def fs(f):
                v = f[x]
                if v is UNINIT or v is None:
                    raise UB("uninitialised local")
                return v
            return t, fs
        load = self.load

        def fm(f):
            o, off = x(f)
            return load(o, off, t)
        return t, fm

    x_idx = x_deref = x_fld = x_arrow = load_lv

    def x_var(self, e):
        n = e[1]
        if self.scope_find(n) is None and n not in self.gtypes:
            if n in self.sigs:
                r = ("fn", n)
                ret, ps = self.sigs[n]
                return ("p", ("f", ret, tuple(ps))), lambda f: r
            if n in self.consts:
                return self.x_cst(e)
        return self.load_lv(e)

    def x_addr(self, e):
        if e[1][0] == "var" and e[1][1] in self.sigs:
            return self.x_var(e[1])
        t, k, x = self.lv(e[1])
        if k == "slot":
            raise UB("address of register local")
        return ("p", t), x

    def x_un(self, e):
        op = e[1]
        t, fx = self.rv(e[2])
        if op == "!":
            def f0(f):
                v = fx(f)
                return 1 if v == 0 and isinstance(v, int) else 0
            return "int", f0
        if t not in INTS:
            raise UB("unary on non integer")
        pt = self.promote(t)
        ck = self.check
        if op == "-":
            if pt == "uint":
                return pt, lambda f: ck(-fx(f), pt)
            return pt, lambda f: ck(-fx(f), pt)
        if op == "~":
            return pt, lambda f: ck(~fx(f), pt)
        if op == "+":
            return pt, fx
        raise UB(op)

    def arith(self, op, ta, tb):
        """-> (result type, function of two values)."""
        if is_ptr(ta) or is_ptr(tb):
            return self.ptr_arith(op, ta, tb)
        if ta not in INTS or tb not in INTS:
            raise UB("operand types %r %r" % (ta, tb))
        if op in ("<<", ">>"):
            rt = self.promote(ta)
        else:
            rt = self.usual(ta, tb)
        ck = self.check
        un = rt in ("uint", "ullong")
        mask = (1 << 8 * self.size(rt)) - 1
        cmp_t = "int" if op in ("<", ">", "<=", ">=", "==", "!=") else rt
        wrap = None
        if un and op not in ("<<", ">>"):
            def wrap(v):
                return v & mask
        fn = self.ARITH[op]
        if op in ("<<", ">>") and not self.cell and self.size(rt) == 8:
            def fn(a, b):
                if not 0 <= b < 64 or a < 0 and op == "<<":
                    raise UB("shift")
                return a << b if op == "<<" else a >> b

        def go(a, b):
            if wrap:
                a, b = wrap(a), wrap(b)
            r = fn(a, b)
            if cmp_t != "int" or op not in ("<", ">", "<=", ">=", "==", "!="):
                r = ck(r, rt)
            return r
        return cmp_t, go

    @staticmethod
    def _div(a, b):
        if b == 0:
            raise UB("division by zero")
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    @staticmethod
    def _mod(a, b):
        if b == 0:
            raise UB("division by zero")
        r = abs(a) % abs(b)
        return -r if a < 0 else r

    @staticmethod
    def _shl(a, b):
        if not 0 <= b < 32 or a < 0:
            raise UB("shift")
        return a << b

    @staticmethod
    def _shr(a, b):
        if not 0 <= b < 32:
            raise UB("shift")
        return a >> b

    ARITH = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
             "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
             "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b), "<=": lambda a, b: int(a <= b), ">=": lambda a, b: int(a >= b),
             "==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b)}

    def ptr_arith(self, op, ta, tb):
        if op in ("==", "!="):
            want = op == "=="

            def eq(a, b):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] is not b[0] and a[0] != "fn":
                    # one-past pointers against other objects are unspecified
                    if a[1] >= a[0].size or b[1] >= b[0].size or not a[0].alive or not b[0].alive:
                        raise UB("pointer comparison")
                    if "string" in (a[0].name, b[0].name):
                        raise UB("string identity")
                    return int(not want)
                if isinstance(a, tuple) and a[0] != "fn" and not a[0].alive:
                    raise UB("dangling")
                return int((a == b) == want)
            return "int", eq
        if is_ptr(ta) and is_ptr(tb):
            w = self.size(ta[1])

            def pp(a, b):
                if isinstance(a, int) or isinstance(b, int) or a[0] is not b[0] or not a[0].alive:
                    raise UB("pointer difference across objects")
                d = a[1] - b[1]
                if op == "-":
                    if d % w:
                        raise UB("misaligned difference")
                    return d // w
                return {"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}[op] + 0
            return "int", pp
        swap = is_ptr(tb)
        if swap and op != "+":
            raise UB("int - ptr")
        t = tb if swap else ta
        w = self.size(t[1])

        def pi(a, b):
            if swap:
                a, b = b, a
            if isinstance(a, int) or not isinstance(b, int):
                raise UB("null arithmetic")
            off = a[1] + (b * w if op == "+" else -b * w)
            if not 0 <= off <= a[0].size or not a[0].alive:
                raise UB("pointer out of bounds")
            return a[0], off
        if op not in "+-":
            raise UB("pointer op")
        return t, pi

    def x_bin(self, e):
        op = e[1]
        ta, fa = self.rv(e[2])
        tb, fb = self.rv(e[3])
        t, g = self.arith(op, ta, tb)
        if ta in ("uchar", "ushort") or tb in ("uchar", "ushort"):
            if not self.cell and op in ("<", ">", "<=", ">=", "/", "%", ">>"):
                self.feat.add("narrow-unsigned-op")
        return t, lambda f: g(fa(f), fb(f))

    @staticmethod
    def truth(v):
        return not (isinstance(v, int) and v == 0)

    def x_and(self, e):
        fa, fb, tr = self.rv(e[1])[1], self.rv(e[2])[1], self.truth
        return "int", lambda f: 1 if tr(fa(f)) and tr(fb(f)) else 0

    def x_or(self, e):
        fa, fb, tr = self.rv(e[1])[1], self.rv(e[2])[1], self.truth
        return "int", lambda f: 1 if tr(fa(f)) or tr(fb(f)) else 0

    def x_cond(self, e):
        fc = self.rv(e[1])[1]
        ta, fa = self.rv(e[2])
        tb, fb = self.rv(e[3])
        t = ta if is_ptr(ta) else tb if is_ptr(tb) else self.usual(ta, tb) if ta in INTS and tb in INTS else ta
        tr, cv = self.truth, self.conv
        if t in INTS:
            return t, lambda f: cv(fa(f) if tr(fc(f)) else fb(f), t)
        return t, lambda f: fa(f) if tr(fc(f)) else fb(f)

    def x_comma(self, e):
        fa = self.rv(e[1])[1]
        t, fb = self.rv(e[2])

        def fn(f):
            fa(f)
            return fb(f)
        return t, fn

    def x_cast(self, e):
        t = tt(e[1])
        ts, fx = self.rv(e[2])
        if t == "void":
            return t, fx
        if is_ptr(t):
            return t, fx
        cv = self.conv
        if self.cell:
            return "int", fx
        if is_ptr(ts):
            raise UB("pointer cast to int")
        return t, lambda f: cv(fx(f), t)

    def assign_to(self, lv, get):
        """Closure storing get(frame) (already converted) into the lvalue and returning the value."""
        t, k, x = lv
        if k == "slot":
            def fs(f):
                v = get(f)
                f[x] = v
                return v
            return fs
        st = self.store

        def fm(f):
            o, off = x(f)
            v = get(f)
            st(o, off, t, v)
            return v
        return fm

    def x_asg(self, e):
        op, lve, re_ = e[1], e[2], e[3]
        lv = self.lv(lve)
        t = lv[0]
        if is_agg(t):
            ts, fr = self.rv(re_)
            if ts != t or op:
                raise UB("aggregate assignment")
            n, x = self.size(t), lv[2]

            def fa(f):
                d, do = x(f)
                s, so = fr(f)
                self.copy_agg(d, do, s, so, n)
                return d, do
            return t, fa
        ts, fr = self.rv(re_)
        cv = self.conv
        if not op:
            if is_ptr(t):
                if not is_ptr(ts) and not (ts in INTS):
                    raise UB("pointer assignment")

                def gp(f):
                    v = fr(f)
                    if isinstance(v, int) and v:
                        raise UB("int to pointer")
                    return v
                return t, self.assign_to(lv, gp)
            if self.voide is not e and t in INTS and RANK[t] < 3 and not self.cell:
                def gn(f):
                    v = fr(f)
                    if cv(v, t) != v:
                        raise UB("known finding: value of an assignment that changes it")
                    return v
                return t, self.assign_to(lv, gn)
            return t, self.assign_to(lv, lambda f: cv(fr(f), t))
        rt, g = self.arith(op, t, ts)
        if lv[1] == "slot":
            idx = lv[2]

            def fs(f):
                r = fr(f)
                v = f[idx]
                if v is UNINIT or v is None:
                    raise UB("uninitialised local")
                v = g(v, r)
                f[idx] = v = cv(v, t) if not is_ptr(t) else v
                return v
            return t, fs
        x, ld, st = lv[2], self.load, self.store

        def fm(f):
            o, off = x(f)
            r = fr(f)
            v = g(ld(o, off, t), r)
            if not is_ptr(t):
                v = cv(v, t)
            st(o, off, t, v)
            return v
        return t, fm

    def x_inc(self, e):
        pre, d, lve = e[1], e[2], e[3]
        lv = self.lv(lve)
        t = lv[0]
        rt, g = self.arith("+" if d > 0 else "-", t, "int")
        cv, ld, st = self.conv, self.load, self.store
        if lv[1] == "slot":
            idx = lv[2]

            def fs(f):
                v = f[idx]
                if v is UNINIT or v is None:
                    raise UB("uninitialised local")
                n = g(v, 1)
                f[idx] = n = n if is_ptr(t) else cv(n, t)
                return n if pre else v
            return t, fs
        x = lv[2]

        def fm(f):
            o, off = x(f)
            v = ld(o, off, t)
            n = g(v, 1)
            if not is_ptr(t):
                n = cv(n, t)
            st(o, off, t, n)
            return n if pre else v
        return t, fm

    def call_fn(self, name, args):
        fn = self.funcs[name]
        self.depth += 1
        if self.depth > self.maxdepth:
            raise UB("recursion too deep")
        r = fn(args)
        self.depth -= 1
        return r

    def args(self, ptypes, exprs, name):
        fs = []
        if ptypes is not None and len(ptypes) != len(exprs):
            raise UB("argument count of " + name)
        for i, a in enumerate(exprs):
            ts, fx = self.rv(a)
            pt = ptypes[i] if ptypes is not None else ts
            if pt in INTS:
                def g(f, fx=fx, pt=pt):
                    return self.conv(fx(f), pt)
            elif is_agg(pt):
                if ts != pt:
                    raise UB("aggregate argument")
                n = self.size(pt)

                def g(f, fx=fx, n=n):
                    o, off = fx(f)
                    c = Obj(n, "copy")
                    self.copy_agg(c, 0, o, off, n)
                    return c
            else:
                g = fx
            fs.append(g)
        return fs

    def x_call(self, e):
        name = e[1]
        if name in self.sigs:
            ret, pts = self.sigs[name]
            fs = self.args(pts, e[2], name)
            # C leaves the order of argument evaluation open; the generator keeps it unobservable
            return ret, lambda f: self.call_fn(name, [g(f) for g in fs])
        b = getattr(self, "b_" + name, None)
        if b is None:
            raise UB("unknown function " + name)
        fs = self.args(None, e[2], name)
        ret = "int" if name not in ("malloc", "fopen") else ("p", "void")

        def fb(f):
            self.events += 1
            return b(*[g(f) for g in fs])
        return ret, fb

    def x_icall(self, e):
        fe = e[1]
        while fe[0] == "deref":
            fe = fe[1]      # *f is f for a function pointer
        t, fx = self.rv(fe)
        if not (is_ptr(t) and isinstance(t[1], tuple) and t[1][0] == "f"):
            raise UB("call of non function")
        ret, pts = t[1][1], list(t[1][2])
        fs = self.args(pts, e[2], "indirect")

        def fn(f):
            a = [g(f) for g in fs]
            p = fx(f)
            if isinstance(p, int) or p[0] != "fn":
                raise UB("call of null")
            return self.call_fn(p[1], a)
        return ret, fn

    # ---- statements: fn(frame, target) -> signal
    def labels(self, s):
        out = set()

        def go(x):
            if isinstance(x, list):
                if x and x[0] == "label":
                    out.add(x[1])
                for y in x:
                    if isinstance(y, list):
                        go(y)
        go(s)
        return out

    def st(self, s):
        return getattr(self, "s_" + s[0])(s)

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise UB("step limit")

    voide = None

    def s_expr(self, s):
        self.voide = s[1]
        fx = self.rv(s[1])[1]

        def fn(f, tg=None):
            self.steps += 1
            if self.steps > self.limit:
                raise UB("step limit")
            fx(f)
        return fn

    def s_empty(self, s):
        return lambda f, tg=None: None

    s_comment = s_empty

    def init_agg(self, obj, off, t, init, f, local):
        """init: None, ['list', ...], ['str', s] or expression closure pairs built lazily."""
        if init is None:
            return
        if is_arr(t):
            if init[0] == "str" and t[1] in ("char", "uchar"):
                data = init[1].encode("latin1") + b"\0"
                for i in range(t[2]):
                    self.store(obj, off + i * self.size(t[1]), t[1], self.conv(data[i] if i < len(data) else 0, t[1]) if self.cell else self.norm(data[i] if i < len(data) else 0, t[1]))
                return
            w = self.size(t[1])
            for i in range(t[2]):
                self.init_agg(obj, off + i * w, t[1], init[1][i] if init[0] == "list" and i < len(init[1]) else ["zero"], f, local)
            return
        if init[0] == "zero":
            if is_agg(t):
                for d, ft in self.layout(t)[3]:
                    self.init_agg(obj, off + d, ft, init, f, local)
                    if self.p.structs[t[1]][0] == "u":
                        break
            else:
                self.store(obj, off, t, 0)
            return
        if is_agg(t) and init[0] == "list":
            fields = self.layout(t)[3]
            kind = self.p.structs[t[1]][0]
            for i, (d, ft) in enumerate(fields):
                if kind == "u" and i:
                    break
                self.init_agg(obj, off + d, ft, init[1][i] if init[0] == "list" and i < len(init[1]) else ["zero"], f, local)
            return
        if init[0] == "list":
            init = init[1][0]
        ts, fx = self.rv(init)
        v = fx(f)
        if is_agg(t):
            self.copy_agg(obj, off, v[0], v[1], self.size(t))
        else:
            self.store(obj, off, t, self.conv(v, t) if t in INTS else v)

    def s_decl(self, s):
        name, t, init = s[1], tt(s[2]), s[3]
        storage = s[4] if len(s) > 4 else None
        if storage == "static":
            o = Obj(self.size(t), name)
            self.zero(o, t)
            self.init_agg(o, 0, t, init, None, False)
            self.scope[-1][name] = (t, o, "static")
            return lambda f, tg=None: None
        direct = not (is_arr(t) or is_agg(t) or name in self.addrtaken)
        idx = self.nslots
        self.nslots += 1
        if direct:
            if init is None:
                self.scope[-1][name] = (t, idx, True)

                def f0(f, tg=None):
                    f[idx] = UNINIT
                return f0
            ts, fx = self.rv(init)
            self.scope[-1][name] = (t, idx, True)
            cv = self.conv
            isint = t in INTS

            def f1(f, tg=None):
                self.steps += 1
                v = fx(f)
                if isint:
                    v = cv(v, t)
                elif isinstance(v, int) and v:
                    raise UB("int to pointer")
                f[idx] = v
            return f1
        n = self.size(t)
        self.scope[-1][name] = (t, idx, False)
        scope = [dict(x) for x in self.scope]
        initc = self.prep_init(init, t)

        def f2(f, tg=None):
            self.steps += 1
            o = Obj(n, name)
            self.run_init(initc, o, 0, t, f)
            f[idx] = o
        return f2

    def prep_init(self, init, t):
        """Precompiles the expressions of an initializer."""
        if init is None:
            return None
        if init[0] == "list":
            subs = []
            for i, x in enumerate(init[1]):
                if is_arr(t):
                    st_ = t[1]
                elif is_agg(t):
                    fl = self.layout(t)[3]
                    if i >= len(fl):
                        raise UB("too many initializers")
                    st_ = fl[i][1]
                else:
                    st_ = t
                subs.append(self.prep_init(x, st_))
            return ("list", subs)
        if init[0] == "str" and is_arr(t):
            return ("str", init[1])
        return ("e",) + self.rv(init)

    def run_init(self, ic, o, off, t, f):
        if ic is None:
            return
        if ic[0] == "str":
            self.init_agg(o, off, t, ["str", ic[1]], f, True)
        elif ic[0] == "list":
            if is_arr(t):
                w = self.size(t[1])
                for i in range(t[2]):
                    if i < len(ic[1]):
                        self.run_init(ic[1][i], o, off + i * w, t[1], f)
                    else:
                        self.init_agg(o, off + i * w, t[1], ["zero"], f, True)
            elif is_agg(t):
                kind = self.p.structs[t[1]][0]
                for i, (d, ft) in enumerate(self.layout(t)[3]):
                    if kind == "u" and i:
                        break
                    if i < len(ic[1]):
                        self.run_init(ic[1][i], o, off + d, ft, f)
                    else:
                        self.init_agg(o, off + d, ft, ["zero"], f, True)
            else:
                self.run_init(ic[1][0], o, off, t, f)
        else:
            v = ic[2](f)
            if is_agg(t):
                self.copy_agg(o, off, v[0], v[1], self.size(t))
            else:
                self.store(o, off, t, self.conv(v, t) if t in INTS else v)

    def s_block(self, s):
        self.scope.append({})
        fs, labs = [], []
        for x in s[1]:
            labs.append(self.labels(x))
            fs.append(self.st(x))
        self.scope.pop()
        alllabs = set().union(*labs) if labs else set()

        def fn(f, tg=None):
            i = 0
            n = len(fs)
            if tg is not None:
                while tg not in labs[i]:
                    i += 1
            while i < n:
                r = fs[i](f, tg)
                tg = None
                if r is not None:
                    if r.__class__ is tuple and r[1] in alllabs:
                        tg = r[1]
                        self.tick()
                        i = 0
                        while tg not in labs[i]:
                            i += 1
                        continue
                    return r
                i += 1
        return fn

    def s_label(self, s):
        fx = self.st(s[2])
        name, inner = s[1], self.labels(s[2])

        def fn(f, tg=None):
            return fx(f, tg if tg in inner else None)
        return fn

    def s_goto(self, s):
        r = ("goto", s[1])

        def fn(f, tg=None):
            self.tick()
            return r
        return fn

    def s_if(self, s):
        fc, tr = self.rv(s[1])[1], self.truth
        self.scope.append({})
        fa = self.st(s[2])
        fb = self.st(s[3]) if s[3] else None
        self.scope.pop()
        la = self.labels(s[2])

        def fn(f, tg=None):
            self.steps += 1
            if self.steps > self.limit:
                raise UB("step limit")
            if tg is not None:
                return fa(f, tg) if tg in la else fb(f, tg)
            if tr(fc(f)):
                return fa(f)
            if fb:
                return fb(f)
        return fn

    def s_while(self, s):
        fc, tr = self.rv(s[1])[1], self.truth
        self.scope.append({})
        fb = self.st(s[2])
        self.scope.pop()

        def fn(f, tg=None):
            while tg is not None or tr(fc(f)):
                self.tick()
                r = fb(f, tg)
                tg = None
                if r is not None:
                    if r == BREAK:
                        break
                    if r != CONT:
                        return r
        return fn

    def s_do(self, s):
        self.scope.append({})
        fb = self.st(s[1])
        self.scope.pop()
        fc, tr = self.rv(s[2])[1], self.truth

        def fn(f, tg=None):
            while True:
                self.tick()
                r = fb(f, tg)
                tg = None
                if r is not None:
                    if r == BREAK:
                        break
                    if r != CONT:
                        return r
                if not tr(fc(f)):
                    break
        return fn

    def s_for(self, s):
        self.scope.append({})
        fi = self.st(s[1]) if s[1] else None
        fc = self.rv(s[2])[1] if s[2] else None
        fp = self.rv(s[3])[1] if s[3] else None
        fb = self.st(s[4])
        self.scope.pop()
        tr = self.truth

        def fn(f, tg=None):
            if tg is None and fi:
                fi(f)
            while tg is not None or fc is None or tr(fc(f)):
                self.tick()
                r = fb(f, tg)
                tg = None
                if r is not None:
                    if r == BREAK:
                        break
                    if r != CONT:
                        return r
                if fp:
                    fp(f)
        return fn

    def s_switch(self, s):
        fx = self.rv(s[1])[1]
        self.scope.append({})
        groups, labs, where, dflt = [], [], {}, None
        for vals, body in s[2]:
            for v in vals:
                if v == "default":
                    dflt = len(groups)
                else:
                    v = self.rv(v)[1](None)
                    if v in where:
                        raise UB("duplicate case")
                    where[v] = len(groups)
            labs.append(self.labels(body))
            groups.append([self.st(x) for x in body])
        self.scope.pop()
        flat = [(g, i) for g, b in enumerate(groups) for i in range(len(b))]
        start = {}
        for k, (g, i) in enumerate(flat):
            start.setdefault(g, k)
        nstart = []
        pos = len(flat)
        for g in range(len(groups) - 1, -1, -1):
            pos = start.get(g, pos)
            nstart.append(pos)
        nstart.reverse()
        seq = [groups[g][i] for g, i in flat]
        where_l = {}
        for k, (g, i) in enumerate(flat):
            for l in self.labels(s[2][g][1][i]):
                where_l[l] = k

        def fn(f, tg=None):
            self.tick()
            if tg is not None:
                k = where_l[tg]
            else:
                v = fx(f)
                g = where.get(v, dflt)
                if g is None:
                    return
                k = nstart[g]
            while k < len(seq):
                r = seq[k](f, tg)
                tg = None
                if r is not None:
                    if r == BREAK:
                        return
                    if isinstance(r, tuple) and r[0] == "goto" and r[1] in where_l:
                        tg = r[1]
                        k = where_l[tg]
                        self.tick()
                        continue
                    return r
                k += 1
        return fn

    def s_break(self, s):
        return lambda f, tg=None: BREAK

    def s_continue(self, s):
        return lambda f, tg=None: CONT

    def s_return(self, s):
        if s[1] is None:
            def f0(f, tg=None):
                f[0] = None
                return RET
            return f0
        ts, fx = self.rv(s[1])
        t, cv = self.rettype, self.conv
        if t in INTS:
            def f1(f, tg=None):
                f[0] = cv(fx(f), t)
                return RET
        else:
            def f1(f, tg=None):
                f[0] = fx(f)
                return RET
        return f1

    # ---- program
    def scope_find(self, n):
        for s in reversed(self.scope):
            if n in s:
                return s[n]
        return None

    scope = []

    def taken(self, body):
        out = set()

        def go(x):
            if isinstance(x, list):
                if x and x[0] == "addr":
                    y = x[1]
                    while y[0] == "paren":
                        y = y[1]
                    if y[0] == "var":
                        out.add(y[1])
                for y in x:
                    if isinstance(y, list):
                        go(y)
        go(body)
        return out

    def make_fn(self, fd):
        name, ret, params, body = fd
        self.addrtaken = self.taken(body)
        self.nslots = 1
        self.scope = [{}]
        self.rettype = ret
        setup = []
        for pn, pt in params:
            idx = self.nslots
            self.nslots += 1
            if is_agg(pt):
                self.scope[-1][pn] = (pt, idx, False)
                setup.append((idx, "agg", pt))
            elif pn in self.addrtaken:
                self.scope[-1][pn] = (pt, idx, False)
                setup.append((idx, "obj", pt))
            else:
                self.scope[-1][pn] = (pt, idx, True)
                setup.append((idx, "val", pt))
        fb = self.st(["block", body])
        n = self.nslots
        self.scope = []

        def fn(args):
            self.tick()
            f = [None] * n
            for (idx, kind, pt), a in zip(setup, args):
                if kind == "obj":
                    o = Obj(self.size(pt), "param")
                    self.store(o, 0, pt, a)
                    f[idx] = o
                else:
                    f[idx] = a
            r = fb(f)
            if r is not None and r != RET:
                raise UB("stray jump")
            v = f[0]
            for x in f:
                if x.__class__ is Obj:
                    x.alive = False
            if v is None and ret != "void" and name != "main":
                return UNINIT
            return v
        return fn

    def zero(self, o, t, off=0):
        if is_arr(t):
            w = self.size(t[1])
            for i in range(t[2]):
                self.zero(o, t[1], off + i * w)
        elif is_agg(t) and self.p.structs[t[1]][0] == "u" and not self.cell:
            for i in range(self.size(t)):
                o.cells[off + i] = (1, 0)
        elif is_agg(t):
            for d, ft in self.layout(t)[3]:
                self.zero(o, ft, off + d)
        else:
            o.cells[off] = (self.size(t), 0)

    def run(self):
        """-> ('exit', status) or ('failstop', message)"""
        for n, t in [g[:2] for g in self.p.globals]:
            o = Obj(self.size(t), n)
            self.gtypes[n], self.globals[n] = t, o
            self.zero(o, t)
        for n, t, init in [g[:3] for g in self.p.globals]:
            self.init_agg(self.globals[n], 0, t, init, None, False)
        for fd in self.p.funcs:
            self.funcs[fd[0]] = self.make_fn(fd)
        params = self.sigs["main"][1]
        args = []
        if params:
            objs = [self.new_str(a) for a in self.argv]
            for o in objs:
                o.ro = False
            w = self.m["ptr"]
            av = Obj((len(objs) + 1) * w, "argv")
            for i, o in enumerate(objs):
                av.cells[i * w] = (w, (o, 0))
            if not self.cell:
                av.cells[len(objs) * w] = (w, 0)
            args = [len(objs), (av, 0)][:len(params)]
        try:
            r = self.funcs["main"](args)
            code = r if isinstance(r, int) else 0
        except Exit as e:
            code = e.code
        except FailStop as e:
            return "failstop", e.msg
        except (RecursionError, OverflowError):
            raise UB("recursion")
        except TypeError as e:
            raise UB("unspecified value used: %s" % e)
        self.code = code
        self.k.exit(code & 0xffffffff)
        return "exit", self.k.exited

    # ---- library functions
    def buf_out(self, p, n):
        if n == 0:
            return b""
        if isinstance(p, int):
            raise UB("null buffer")
        o, off = p
        return bytes(self.load(o, off + i, "char") & 255 for i in range(n))

    def buf_in(self, p, data):
        if not data:
            return
        o, off = p
        for i, c in enumerate(data):
            self.store(o, off + i, "char", c if self.cell else (c - 256 if c > 127 else c))

    def b_read(self, fd, p, n):
        if self.cell:
            return self.sh_read(fd, p, n)
        if isinstance(p, int) or n < 0 or p[1] + n > p[0].size:
            raise UB("read buffer")
        r, d = self.k.read(fd, n)
        self.buf_in(p, d)
        return r

    def b_write(self, fd, p, n):
        if n < 0:
            raise UB("negative count")
        d = self.buf_out(p, n)
        if self.cell:
            return self.sh_write(fd, d)
        return self.k.write(fd, d)

    def b_open(self, path, flags, mode=0):
        path = self.cstr(path).decode("latin1")
        if self.cell:
            return self.sh_open(path, flags)
        return self.k.open(path, flags, mode & 0xffff)

    def b_close(self, fd):
        if self.cell:
            return self.sh_close(fd)
        return self.k.close(fd)

    def b_lseek(self, fd, off, wh):
        return self.k.lseek(fd, off, wh)

    def b_unlink(self, path):
        return self.k.unlink(self.cstr(path).decode("latin1"))

    def b_getchar(self):
        if self.cell:
            return self.sh_getc(0)
        r, d = self.k.read(0, 1)
        return d[0] if r > 0 else -1

    def b_putchar(self, c):
        if not -128 <= c <= 255:
            raise UB("putchar range")
        if self.cell:
            if c < 0:
                raise UB("putchar range")
            self.sh_write(1, bytes([c]))
            return UNINIT
        self.k.write(1, bytes([c & 255]))
        return UNINIT

    def b_fopen(self, path, mode):
        path = self.cstr(path).decode("latin1")
        mode = self.cstr(mode)
        if self.cell:
            fd = self.sh_open(path, 1 if mode[:1] == b"w" else 0)
        else:
            if mode != b"r":
                raise UB("fopen mode")
            fd = self.k.open(path, 0, 0)
            if fd < 0:
                return 0
        o = Obj(1, "FILE")
        o.cells[0] = (99, fd)
        return (o, 0)

    def file_fd(self, fp):
        if isinstance(fp, int) or fp[0].name != "FILE" or not fp[0].alive:
            raise UB("bad FILE")
        return fp[0].cells[0][1]

    def b_fgetc(self, fp):
        fd = self.file_fd(fp)
        if self.cell:
            return self.sh_getc(fd)
        r, d = self.k.read(fd, 1)
        return d[0] if r > 0 else -1

    def b_fclose(self, fp):
        fd = self.file_fd(fp)
        fp[0].alive = False
        if self.cell:
            return self.sh_close(fd)
        r = self.k.close(fd)
        return UNINIT if r else 0

    def b_malloc(self, n):
        if self.heap_limit is None:
            if not 0 <= n <= 1 << 20:
                raise UB("malloc size")
        else:
            if n < 0:
                n &= (1 << 32) - 1 if self.m["ptr"] == 4 else (1 << 64) - 1
            if self.malloc_bytes + n > self.heap_limit:
                raise FailStop(b"Heap overflow")
        self.malloc_bytes += n
        return (Obj(n, "heap", True), 0)

    def b_free(self, p):
        if isinstance(p, int):
            raise UB("free(NULL)")
        if p[0].name != "heap" or p[1] or not p[0].alive:
            raise UB("bad free")
        p[0].alive = False
        return UNINIT

    def b_exit(self, c):
        raise Exit(c)

    def b_strlen(self, p):
        return len(self.cstr(p))

    def b_printf(self, fmt, *args):
        self.sh_write(1, self.format(self.cstr(fmt), args))
        return UNINIT

    def b_puts(self, p):
        self.sh_write(1, self.cstr(p) + b"\n")
        return UNINIT

    def b_putstr(self, p):
        d = self.cstr(p)
        if self.cell:
            self.sh_write(1, d)
        else:
            for c in d:
                self.k.write(1, bytes([c]))
        return UNINIT

    def format(self, fmt, args):
        out, i, args = bytearray(), 0, list(args)
        rx = re.compile(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d*))?l{0,2}([diouxXcs%])")
        while i < len(fmt):
            c = fmt[i]
            if c != 37:
                out.append(c)
                i += 1
                continue
            m = rx.match(fmt, i)
            if not m:
                raise UB("format")
            i = m.end()
            fl, w, pr, cv = m.group(1).decode(), m.group(2), m.group(3), m.group(4).decode()
            if cv == "%":
                if fl or w or pr:
                    raise UB("format")
                out.append(37)
                continue
            w = args.pop(0) if w == b"*" else int(w) if w else 0
            if pr == b"*":
                pr = args.pop(0)
            elif pr is not None:
                pr = int(pr or b"0")
            v = args.pop(0)
            if w < 0 or pr is not None and pr < 0:
                raise UB("negative width")
            if cv == "c":
                if not 0 <= v <= 255:
                    raise UB("%c range")
                b = bytes([v])
            elif cv == "s":
                b = self.cstr(v)
                if pr is not None:
                    b = b[:pr]
            else:
                if not isinstance(v, int):
                    raise UB("format argument")
                if cv in "ouxX" and v < 0:
                    raise UB("negative unsigned")
                a = abs(v)
                s = {"d": "%d", "i": "%d", "u": "%d", "o": "%o", "x": "%x", "X": "%X"}[cv] % a
                if pr is not None:
                    s = "" if pr == 0 and a == 0 else s.rjust(pr, "0")
                if "#" in fl:
                    if cv == "o":
                        if not s.startswith("0"):
                            s = "0" + s
                    elif cv in "xX" and a:
                        pre = "0" + cv
                        s = s if False else s
                        sign = ""
                        if "0" in fl and "-" not in fl and pr is None:
                            s = s.rjust(w - 2, "0")
                        s = pre + s
                    elif cv in "diu":
                        raise UB("# with d")
                sign = ""
                if cv in "di":
                    sign = "-" if v < 0 else "+" if "+" in fl else " " if " " in fl else ""
                elif "+" in fl or " " in fl:
                    raise UB("sign flag on unsigned")
                if "0" in fl and "-" not in fl and pr is None:
                    s = s.rjust(w - len(sign), "0")
                b = (sign + s).encode()
            if cv in "cs" and set(fl) - {"-"}:
                raise UB("flags on c/s")
            out += b.ljust(w) if "-" in fl else b.rjust(w)
        if args:
            raise UB("format arguments")
        return bytes(out)

    # ---- shell I/O (pnut-sh's own descriptor semantics)
    def sh_open(self, path, mode):
        fd = 0
        while fd in self.shfd:
            fd += 1
        if fd > 9:
            msg = b"No more file descriptors available to open " + path.encode("latin1") + b"\n"
            self.k.write(1, msg) if 1 in self.shfd else None
            raise FailStop(msg)
        if mode not in (0, 1, 2):
            raise UB("open mode")
        fl = {0: 0, 1: K.O_WRONLY | K.O_CREAT | K.O_TRUNC, 2: K.O_WRONLY | K.O_CREAT | K.O_APPEND}[mode]
        r = self.k.open(path, fl, 0o666)
        if r < 0:
            raise FailStop()
        self.k.fds[("sh", fd)] = self.k.fds.pop(r)
        self.shfd[fd] = ("sh", fd)
        return fd

    def sh_close(self, fd):
        if fd not in self.shfd:
            raise UB("close of closed descriptor")
        if fd in (1, 2):
            raise UB("close of standard output")
        self.k.close(self.shfd.pop(fd))
        return 0

    def sh_read(self, fd, p, n):
        if n < 0:
            raise UB("count")
        if fd not in self.shfd:
            raise UB("read of closed descriptor")
        r, d = self.k.read(self.shfd[fd], n)
        if r < 0:
            raise UB("failed read")
        self.buf_in(p, d)
        return r

    def sh_getc(self, fd):
        if fd not in self.shfd:
            raise UB("read of closed descriptor")
        r, d = self.k.read(self.shfd[fd], 1)
        if r < 0:
            raise UB("failed read")
        return d[0] if r else -1

    def sh_write(self, fd, data):
        if fd not in self.shfd:
            raise UB("write to closed descriptor")
        r = self.k.write(self.shfd[fd], data)
        if data and r < len(data):
            raise FailStop()
        return len(data)


Interp.ARITH.update({"/": Interp._div, "%": Interp._mod, "<<": Interp._shl, ">>": Interp._shr})


# ---------------------------------------------------------------- printer
PREC = {"comma": 1, "asg": 2, "cond": 3, "or": 4, "and": 5, "un": 14, "addr": 14, "deref": 14, "cast": 14, "sizeof": 14, "sizeofe": 14,
        "call": 15, "icall": 15, "idx": 15, "fld": 15, "arrow": 15}
BPREC = {"|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10, "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13}


def cchar(v, sh=False):
    m = {10: "\\n", 9: "\\t", 13: "\\r", 0: "\\0", 7: "\\a", 8: "\\b", 12: "\\f", 11: "\\v", 92: "\\\\", 39: "\\'"}
    return "'" + (m[v] if v in m else chr(v)) + "'"


def cstring(s, style=0):
    m = {10: "\\n", 9: "\\t", 13: "\\r", 7: "\\a", 8: "\\b", 12: "\\f", 11: "\\v", 92: "\\\\", 34: '\\"'}
    out, prev_oct = [], False
    for c in s.encode("latin1"):
        if c in m:
            out.append(m[c])
        elif 32 <= c < 127:
            out.append(chr(c))
        else:
            out.append("\\%03o" % c)
    return '"' + "".join(out) + '"'


class Printer:
    """Prints a Prog as C. style: callable n -> choice in [0, n) used for layout variation."""
    nohex = False

    def __init__(self, prog, style=None, dialect="c"):
        self.p, self.r, self.d = prog, style or (lambda n: 0), dialect
        self.out, self.ind, self.tds = [], 0, set()

    def decl(self, t, name):
        """C declaration of name with type t."""
        t = tt(t)
        if isinstance(t, str):
            return CNAME[t] + " " + name if name else CNAME[t]
        if t[0] == "p":
            if isinstance(t[1], tuple) and t[1][0] == "f":
                f = t[1]
                return self.decl(f[1], "(*%s)(%s)" % (name, ", ".join(self.decl(x, "a%d" % i) for i, x in enumerate(f[2])) or ("void" if not self.r(2) else "")))
            if isinstance(t[1], tuple) and t[1][0] == "a":
                return self.decl(t[1], "(*%s)" % name)
            return self.decl(t[1], "*" + name)
        if t[0] == "a":
            return self.decl(t[1], name + "[%d]" % t[2])
        if t[0] in ("s", "u"):
            td = self.p.typedefs.get(t)
            if t in self.tds:
                return (td + " " + name).strip()
            return (("struct " if t[0] == "s" else "union ") + t[1] + " " + name).strip()
        raise ValueError(t)

    def e(self, e, prec=0):
        op = e[0]
        if op == "int":
            v = e[1]
            st = e[2] if len(e) > 2 else 0
            s = str(v)
            if v >= 0 and st == 1 and not self.nohex:
                s = hex(v)
            elif v > 0 and st == 2:
                s = "0%o" % v
            if v < 0:
                return "(-%d)" % -v if prec > 12 else "-%d" % -v
            return s
        if op == "lit":
            v, t, st = e[1:]
            s = str(v) if st % 3 == 0 or self.nohex else hex(v) if st % 3 == 1 else "0%o" % v if v else "0"
            return s + {"int": [""] * 4, "uint": ["U", "u"] * 2, "llong": ["LL", "ll"] * 2, "ullong": ["ULL", "LLU", "ull", "uLL"]}[t][st // 3]
        if op == "chr":
            return cchar(e[1])
        if op == "str":
            s = e[1]
            if len(s) > 3 and len(e) > 2 and e[2]:
                k = e[2] % (len(s) - 1) + 1
                return cstring(s[:k]) + " " + cstring(s[k:])
            return cstring(s)
        if op in ("var", "cst"):
            return e[1]
        if op == "paren":
            return "(" + self.e(e[1]) + ")"
        if op == "inc":
            o = "++" if e[2] > 0 else "--"
            s = o + self.e(e[3], 14) if e[1] else self.e(e[3], 15) + o
            p = 14 if e[1] else 15
        elif op == "bin":
            p = BPREC[e[1]]
            s = self.e(e[2], p) + " " + e[1] + " " + self.e(e[3], p + 1)
        elif op == "un":
            p = 14
            x = self.e(e[2], 14)
            s = e[1] + ("(" + x + ")" if x[0] == e[1] and x[0] in "+-&" else x)
        elif op == "addr":
            p, s = 14, "&" + self.e(e[1], 14)
        elif op == "deref":
            p, s = 14, "*" + self.e(e[1], 14)
        elif op == "cast":
            p, s = 14, "(" + self.decl(e[1], "").strip() + ") " + self.e(e[2], 14)
        elif op == "sizeof":
            p, s = 14, "sizeof(" + self.decl(e[1], "").strip() + ")"
        elif op == "sizeofe":
            p, s = 14, "sizeof(" + self.e(e[1]) + ")"
        elif op in ("and", "or"):
            p = PREC[op]
            s = self.e(e[1], p) + (" && " if op == "and" else " || ") + self.e(e[2], p + 1)
        elif op == "cond":
            p = 3
            s = self.e(e[1], 4) + " ? " + self.e(e[2], 0) + " : " + self.e(e[3], 3)
        elif op == "asg":
            p = 2
            s = self.e(e[2], 14) + " " + e[1] + "= " + self.e(e[3], 2)
        elif op == "comma":
            p = 1
            s = self.e(e[1], 1) + ", " + self.e(e[2], 2)
        elif op == "call":
            p, s = 15, e[1] + "(" + ", ".join(self.e(a, 2) for a in e[2]) + ")"
        elif op == "icall":
            p = 15
            f = e[1]
            c = self.e(f, 15)
            if f[0] == "deref":
                c = "(" + c + ")" if not c.startswith("(") else c
            s = c + "(" + ", ".join(self.e(a, 2) for a in e[2]) + ")"
        elif op == "idx":
            p, s = 15, self.e(e[1], 15) + "[" + self.e(e[2]) + "]"
        elif op == "fld":
            p, s = 15, self.e(e[1], 15) + "." + e[2]
        elif op == "arrow":
            p, s = 15, self.e(e[1], 15) + "->" + e[2]
        else:
            raise ValueError(op)
        return "(" + s + ")" if p < prec else s

    def init(self, i):
        if i[0] == "list":
            return "{" + ", ".join(self.init(x) for x in i[1]) + ("," if self.d == "c" and False else "") + "}"
        return self.e(i, 2)

    def line(self, s):
        self.out.append("  " * self.ind + s)

    def body(self, s, tail=""):
        """Statement as loop or branch body."""
        if s[0] == "block":
            self.out[-1] += " {"
            self.ind += 1
            for x in s[1]:
                self.s(x)
            self.ind -= 1
            self.line("}" + tail)
        else:
            self.ind += 1
            self.s(s)
            self.ind -= 1
            if tail:
                self.line(tail.strip())

    def s(self, s):
        op = s[0]
        if op == "expr":
            self.line(self.e(s[1]) + ";")
        elif op == "decl":
            x = self.decl(s[2], s[1])
            if len(s) > 4 and s[4]:
                x = s[4] + " " + x
            if s[3] is not None:
                x += " = " + self.init(s[3])
            self.line(x + ";")
        elif op == "empty":
            self.line(";")
        elif op == "comment":
            self.line(s[1])
        elif op == "block":
            self.line("{")
            self.ind += 1
            for x in s[1]:
                self.s(x)
            self.ind -= 1
            self.line("}")
        elif op == "if":
            self.line("if (" + self.e(s[1]) + ")")
            a = s[2]
            if s[3] and a[0] in ("if", "while", "for", "label"):
                a = ["block", [a]]      # no dangling else
            self.body(a)
            if s[3]:
                if self.out[-1].strip() == "}":
                    self.out[-1] += " else"
                else:
                    self.line("else")
                if s[3][0] == "if":
                    k = len(self.out)
                    self.s(s[3])
                    self.out[k - 1] += " " + self.out[k].lstrip()
                    del self.out[k]
                else:
                    self.body(s[3])
        elif op == "while":
            self.line("while (" + self.e(s[1]) + ")")
            self.body(s[2])
        elif op == "do":
            self.line("do")
            b = s[1] if s[1][0] == "block" else ["block", [s[1]]]
            self.body(b, " while (" + self.e(s[2]) + ");")
        elif op == "for":
            i = ""
            if s[1]:
                if s[1][0] == "decl":
                    i = self.decl(s[1][2], s[1][1]) + " = " + self.init(s[1][3])
                else:
                    i = self.e(s[1][1])
            self.line("for (%s; %s; %s)" % (i, self.e(s[2]) if s[2] else "", self.e(s[3]) if s[3] else ""))
            self.body(s[4])
        elif op == "switch":
            self.line("switch (" + self.e(s[1]) + ") {")
            self.ind += 1
            for vals, b in s[2]:
                for v in vals:
                    self.line("default:" if v == "default" else "case " + self.e(v, 3) + ":")
                self.ind += 1
                if not b or b[0][0] == "decl":
                    self.line(";")
                for x in b:
                    self.s(x)
                self.ind -= 1
            self.ind -= 1
            self.line("}")
        elif op == "break":
            self.line("break;")
        elif op == "continue":
            self.line("continue;")
        elif op == "return":
            self.line("return;" if s[1] is None else "return " + self.e(s[1]) + ";")
        elif op == "goto":
            self.line("goto " + s[1] + ";")
        elif op == "label":
            self.line(s[1] + ":")
            if s[2][0] == "decl":
                self.line(";")
            self.s(s[2])
        else:
            raise ValueError(op)

    def sig(self, fd):
        name, ret, params, body = fd
        ps = ", ".join(self.decl(t, n) for n, t in params)
        return self.decl(ret, name + "(" + (ps or ("void" if self.r(2) else "")) + ")")

    def fields(self, n, ind="  "):
        for f, t in self.p.structs[n][1]:
            if f is None:
                self.line(ind + ("struct" if t[0] == "s" else "union") + " {")
                self.fields(t[1], ind + "  ")
                self.line(ind + "};")
            else:
                self.line(ind + self.decl(t, f) + ";")

    def program(self):
        p = self.p
        gl = {g[0]: g for g in p.globals}
        fu = {f[0]: f for f in p.funcs}
        for kind, n in p.order:
            if kind == "enum":
                en = next(x for x in p.enums if x[0] == n)
                self.line("enum %s{ %s };" % (n + " " if not n.startswith("_") else "", ", ".join("%s = %d" % cv if ex else cv[0] for cv, ex in en[1])))
            elif kind in ("struct", "union"):
                self.line("%s %s {" % (kind, n))
                self.fields(n)
                self.line("};")
            elif kind == "typedef":
                self.tds.add(n)
                self.line("typedef " + ("struct " if n[0] == "s" else "union ") + n[1] + " " + p.typedefs[n] + ";")
            elif kind == "global":
                g = gl[n]
                x = self.decl(g[1], n)
                if g[2] is not None:
                    if is_arr(g[1]) and len(g) > 3 and g[3]:
                        x = x.replace("[%d]" % g[1][2], "[]", 1)
                    x += " = " + self.init(g[2])
                self.line(x + ";")
            elif kind == "proto":
                self.line(self.sig(fu[n]) + ";")
            elif kind == "func":
                self.line(self.sig(fu[n]) + " {")
                self.ind = 1
                for x in fu[n][3]:
                    self.s(x)
                self.ind = 0
                self.line("}")
            elif kind == "raw":
                self.line(n)
        return "\n".join(self.out) + "\n"
