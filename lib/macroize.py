"""Rewrites the source text of a program with preprocessor directives that leave
its tokens after preprocessing as they were: macros for runs of tokens, with and
without parameters, nested, redefined and undefined; pasted identifiers and
numbers; conditionals of every form around what is kept and what is not."""
import re

TOK = re.compile(r"""\s+|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+[uUlL]*|\d\w*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\+\+|--|->|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.""")
OPEN, CLOSE = "([{", ")]}"
KEYWORDS = {"int", "char", "if", "else", "while", "for", "do", "return", "break", "continue", "switch", "case", "default", "struct", "union", "enum", "typedef",
            "sizeof", "void", "static", "goto", "short", "long", "unsigned", "signed", "const", "volatile", "register", "auto", "extern", "inline", "float", "double"}


def lex(line):
    return [t for t in TOK.findall(line) if not t.isspace()]


def ident(t):
    return re.match(r"[A-Za-z_]\w*$", t) is not None


class Macros:
    def __init__(self, c, sh):
        self.c, self.sh, self.n = c, sh, 0
        self.frozen = set()      # those that use # or ##
        self.funs = set()        # names of macros with parameters
        self.objs = {}           # names of macros for integer constants -> value
        self.undef = 0

    def fresh(self):
        self.n += 1
        return ["M%d", "MACRO_%d", "m%dq", "X_%d_X"][self.c(4)] % self.n

    # -- runs of tokens
    def balanced(self, ts):
        st = []
        for t in ts:
            if t in OPEN:
                st.append(CLOSE[OPEN.index(t)])
            elif t in CLOSE and (not st or st.pop() != t):
                return False
        return not st

    def top_comma(self, ts):
        d = 0
        for t in ts:
            d += (t in OPEN) - (t in CLOSE)
            if t == "," and d == 0:
                return True
            if t == "," and "[" in ts or t == "," and "{" in ts:
                return True
        return False

    def run(self, ts, lo=1, hi=9):
        """A balanced run of the tokens: (i, j) or None."""
        c = self.c
        if not ts:
            return None
        for _ in range(6):
            i = c(len(ts))
            j = i + lo + c(hi)
            if j > len(ts) or not self.balanced(ts[i:j]) or ts[j - 1] in self.funs:
                continue
            if i > 0 and (ts[i - 1] in self.funs or ts[i - 1] in ("#", "##")):
                continue
            if self.top_comma(ts[i:j]) and self.in_call(ts, i) or self.in_frozen(ts, i):
                continue
            return i, j
        return None

    def in_frozen(self, ts, i):
        """Whether position i is in an argument of # or ##, which is not expanded."""
        d = 0
        while i > 0:
            i -= 1
            d += (ts[i] in CLOSE) - (ts[i] in OPEN)
            if d < 0:
                d = 0
                if i > 0 and ts[i - 1] in self.frozen:
                    return True
        return False

    def in_call(self, ts, i):
        """Whether the innermost parenthesis around position i is a macro call's."""
        d = 0
        while i > 0:
            i -= 1
            d += (ts[i] in CLOSE) - (ts[i] in OPEN)
            if d < 0:
                return i > 0 and ts[i - 1] in self.funs
        return False

    def space(self, ts):
        """Tokens to text."""
        out, prev = "", ""
        for t in ts:
            glue = prev and (re.match(r"\w", t) and re.search(r"\w$", prev) or prev + t in ("++", "--", "<<", ">>") or not (prev.isalnum() or t.isalnum() or prev in "()[]," or t in "()[],;"))
            if prev in self.funs and t == "(":
                glue = self.c(3) == 2
            elif not glue:
                glue = self.c(3) == 1 and prev
            out += (" " if glue else "") + t
            prev = t
        return out

    def body(self, ts):
        s = self.space(ts)
        k = self.c(12)
        if k == 11 and " " in s and '"' not in s and "'" not in s:
            i = s.index(" ")
            s = s[:i] + " \\\n  " + s[i + 1:]
        elif k == 10:
            s += " /* %s */" % ["", "a, b", "* / *"][self.c(3)]
        elif k == 9:
            s += " // " + ["x", "()", "'"][self.c(3)]
        return s

    def object_macro(self, ts):
        r = self.run(ts)
        if not r:
            return None
        i, j = r
        n = self.fresh()
        d = "#define %s %s" % (n, self.body(ts[i:j]))
        return d, n, ts[:i] + [n] + ts[j:]

    def function_macro(self, ts):
        c = self.c
        r = self.run(ts, 1, 12)
        if not r:
            return None
        i, j = r
        run = ts[i:j]
        params, args, body = [], [], list(run)
        for _ in range(c(4)):
            a = self.run(body, 1, 4)
            if not a:
                continue
            arg = body[a[0]:a[1]]
            if self.top_comma(arg) or any(t in params for t in arg) or any(t in ("#", "##") for t in arg):
                continue
            p = ["a%d", "p%d_", "x%d", "_%d"][c(4)] % len(params)
            if p in ts:
                continue
            # every occurrence of the run may stand for the parameter
            new, k = [], 0
            while k < len(body):
                if body[k:k + len(arg)] == arg and (k == a[0] or c(2) and self.safe(body, k, len(arg))):
                    new.append(p)
                    k += len(arg)
                else:
                    new.append(body[k])
                    k += 1
            if p not in new:
                continue
            body = new
            params.append(p)
            args.append(arg)
        if c(4) == 3 and params:
            params.append("unused%d" % len(params))
            args.append([["0"], ["(", "1", ",", "2", ")"], ["x", "+", "1"], [";"]][c(4)])
        if not params:
            return None
        if len(args) > 1 and c(2):
            o = list(range(len(params)))
            k = c(len(o))
            o = o[k:] + o[:k]
            params, args = [params[x] for x in o], [args[x] for x in o]
        n = self.fresh()
        self.funs.add(n)
        d = "#define %s(%s) %s" % (n, [", ", ",", " , "][c(3)].join(params), self.body(body))
        call = [n, "("]
        for k, a in enumerate(args):
            if k:
                call.append(",")
            call += a
        return d, n, ts[:i] + call + [")"] + ts[j:]

    def safe(self, body, k, n):
        return self.balanced(body[k:k + n]) and body[k + n - 1] not in self.funs and (k == 0 or body[k - 1] not in self.funs)

    def paste(self, ts):
        c = self.c
        ks = [k for k, t in enumerate(ts) if (ident(t) and len(t) > 1 or re.match(r"[1-9]\d+$", t)) and t not in self.names and (k == 0 or ts[k - 1] != "#") and not self.in_frozen(ts, k)]
        if not ks:
            return None
        k = ks[c(len(ks))]
        t = ts[k]
        cut = 1 + c(len(t) - 1)
        a, b = t[:cut], t[cut:]
        if not ident(t):
            if b[0] == "0" or len(t) > 9:
                return None
        elif not (ident(b) or re.match(r"[1-9]\d{0,7}$", b)):
            return None
        if a in self.names or b in self.names:
            return None
        n = self.fresh()
        f = c(4)
        if f == 0:
            return "#define %s %s ## %s" % (n, a, b), n, ts[:k] + [n] + ts[k + 1:]
        self.funs.add(n)
        self.frozen.add(n)
        if f == 1:
            d, args = "#define %s(pp) %s##pp" % (n, a), [b]
        elif f == 2:
            d, args = "#define %s(pp) pp ##%s" % (n, b), [a]
        else:
            d, args = "#define %s(pp, qq) pp##qq" % n, [a, ",", b]
        return d, n, ts[:k] + [n, "("] + args + [")"] + ts[k + 1:]

    def stringize(self, ts):
        ks = [k for k, t in enumerate(ts) if re.match(r'"[A-Za-z_]\w*"$', t) and t[1:-1] not in self.names and not self.in_frozen(ts, k)]
        if not ks:
            return None
        k = ks[self.c(len(ks))]
        n = self.fresh()
        self.funs.add(n)
        self.frozen.add(n)
        return "#define %s(x) %sx" % (n, ["#", "# "][self.c(2)]), n, ts[:k] + [n, "(", ts[k][1:-1], ")"] + ts[k + 1:]

    # -- conditionals
    def expr(self, depth=3):
        """-> (text, value) of a constant expression."""
        c = self.c
        k = c(10) if depth else c(3)
        if k == 0:
            v = [0, 1, 2, 7, 100, 65535, 2147483647][c(7)]
            return ["%d" % v, "0x%x" % v, "0%o" % v][c(3)], v
        if k == 1:
            if self.objs and c(2):
                n = sorted(self.objs)[c(len(self.objs))]
                if c(2):
                    return n, self.objs[n]
                return ["defined(%s)", "defined %s"][c(2)] % n, 1
            return ["defined(NOT_%d)", "defined NOT_%d", "NOT_%d"][c(3)] % c(9), 0
        if k == 2:
            ch = "aZ0 +"[c(5)]
            return "'%s'" % ch, ord(ch)
        a, x = self.expr(depth - 1)
        if k == 3:
            u = "!-~+"[c(4)]
            v = {"!": int(not x), "-": -x, "~": ~x, "+": x}[u]
            if not -2147483648 < v < 2147483648:
                u, v = "!", int(not x)
            return "%s(%s)" % (u, a), v
        if k == 4:
            b, y = self.expr(depth - 1)
            z, w = self.expr(depth - 1)
            return "((%s) ? (%s) : (%s))" % (a, b, z), y if x else w
        b, y = self.expr(depth - 1)
        ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]
        o = ops[c(len(ops))]
        if o in "/%" and (y == 0) or o in ("<<", ">>") and not (0 <= y <= 15 and x >= 0):
            o = "&&"
        if o == "/":
            v = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        elif o == "%":
            v = x - abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) * y
        else:
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                 "<<": lambda: x << y, ">>": lambda: x >> y, "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), "<=": lambda: int(x <= y),
                 ">": lambda: int(x > y), ">=": lambda: int(x >= y), "&&": lambda: int(bool(x and y)), "||": lambda: int(bool(x or y))}[o]()
        if abs(v) > 2147483647:
            return "(%s) != (%s)" % (a, b), int(x != y)
        w = lambda s: s if s.isalnum() else "(" + s + ")"
        return "%s %s %s" % (w(a), o, w(b)), v

    def cond(self, want):
        """Directive whose condition is want."""
        c = self.c
        k = c(4)
        if k == 0:
            if self.objs:
                n = sorted(self.objs)[c(len(self.objs))]
                return ("#ifdef " if want else "#ifndef ") + n
            return ("#ifndef " if want else "#ifdef ") + "NOT_%d" % c(9)
        t, v = self.expr()
        if bool(v) != want:
            t = "!(%s)" % t
        return "#if " + t

    def junk(self):
        c = self.c
        return ["int nope(", "} } )", "#error not reached", "#include \"missing.h\"", "#define PUTS_%d junk" % c(5), "#if 1\n1 2 3\n#else\n4\n#endif",
                "#ifdef X\n#elif defined(Y)\n#else\n#endif", "/* comment */", "x = = y;", "#undef NOT_1", "", "#unknown directive"][c(12)]

    def conditional(self, text):
        """Conditionals that keep exactly the text."""
        c = self.c
        out = []
        branches = 1 + c(3)
        keep = c(branches + 1)
        for b in range(branches):
            # a branch before the kept one is false, the ones after it can be anything
            want = b == keep or (b > keep and c(2) == 1)
            d = self.cond(want)
            if b:
                if d.startswith("#ifdef "):
                    d = "#elif defined(%s)" % d[7:]
                elif d.startswith("#ifndef "):
                    d = "#elif !defined(%s)" % d[8:]
                else:
                    d = "#el" + d[1:]
            out += [["", " ", "  "][c(3)] + d, text if b == keep else self.junk()]
        if keep == branches:
            out += ["#else", text]
        elif c(2):
            out += ["#else", self.junk()]
        return "\n".join(out + [["#endif", "# endif", "#endif // end"][c(3)]])

    def rewrite(self, src):
        c = self.c
        lines = src.split("\n")
        if any(l.lstrip().startswith("#") for l in lines) or "/*" in src:
            return src
        self.names = set()
        tops = []            # lines where a declaration starts
        depth = 0
        for k, l in enumerate(lines):
            if depth == 0 and l.strip():
                tops.append(k)
            for t in lex(l.split("//")[0]):
                depth += (t == "{") - (t == "}")
        before = {}
        for _ in range(1 + c(12)):
            k = c(len(lines))
            l = lines[k]
            if "//" in l or not l.strip() or "\n" in l or "#" in l:
                continue
            ts = lex(l)
            f = c(8)
            r = (self.object_macro if f < 3 else self.function_macro if f < 6 else self.paste if f < 7 else self.stringize)(ts)
            if not r:
                continue
            d, n, new = r
            self.names.add(n)
            ind = re.match(r"\s*", l).group(0)
            lines[k] = ind + self.space(new)
            t = max([x for x in tops if x <= k] or [0])
            t = [0, t, k][c(3)]
            before.setdefault(t, []).insert(0, d)
            if c(4) == 3:
                # an earlier definition that is replaced or removed before this one
                x = "#define %s%s" % (n, [" 1 +", " ", "(x) x +", " )"][c(4)])
                before[t][0:0] = [x, "#undef " + n] if c(2) else [x, self.filler(), "#undef " + n]
        for _ in range(c(4)):
            n = self.fresh()
            v = c(1000)
            self.objs[n] = v
            before.setdefault(0, []).insert(0, "#define %s %d" % (n, v))
        out = []
        for k, l in enumerate(lines):
            out += before.get(k, [])
            if l.strip() and "\n" not in l and not l.strip().startswith("#") and c(14) == 13:
                l = self.conditional(l)
            elif c(30) == 29:
                l = self.conditional("") + "\n" + l
            out.append(l)
        return "\n".join(out)

    def filler(self):
        return ["", "#if 0\n#endif", "// filler", "#undef NOT_2"][self.c(4)]


def rewrite(c, src, sh):
    return Macros(c, sh).rewrite(src)
