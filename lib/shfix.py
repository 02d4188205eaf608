"""Brings a generated program inside the subset pnut-sh accepts, without
changing what it means: && and || where the shell backend takes them."""


def has_call(e):
    if isinstance(e, list):
        return bool(e) and e[0] in ("call", "icall") or any(has_call(x) for x in e)
    return False


def has_logic(e):
    if isinstance(e, list):
        return bool(e) and e[0] in ("and", "or") or any(has_logic(x) for x in e)
    return False


def nz(e):
    return ["bin", "!=", e if e[0] in ("paren", "var", "int") else ["paren", e], ["int", 0]]


def has(e, kinds):
    if isinstance(e, list):
        return bool(e) and e[0] in kinds or any(has(x, kinds) for x in e)
    return False


def pure(e):
    """e without its side effects."""
    if not isinstance(e, list) or not e:
        return e
    if e[0] == "asg":
        return ["paren", pure(e[3])] if not e[1] else ["paren", ["bin", e[1], pure(e[2]), ["paren", pure(e[3])]]]
    if e[0] == "inc":
        return pure(e[3])
    return [pure(x) for x in e]


def seq(e):
    """Known finding C18-value-sequence: where a value is computed through &&,
    ||, ?: or a comma, the elements read in it are looked up before any of it is
    evaluated. Such an expression does not both read memory and have effects."""
    if has(e, ("asg", "inc")) and has(e, ("idx", "deref", "arrow", "fld")):
        return pure(e)
    return e


def lval(e):
    """Known finding C18-lvalue-index: the index of an array element that is
    written must not have an operator that binds weaker than +."""
    k = e[0]
    if k == "paren":
        return ["paren", lval(e[1])]
    if k == "idx":
        i = e[2]
        while i[0] == "paren":
            i = i[1]
        if i[0] in ("and", "or", "cond", "asg", "norm") or i[0] == "bin" and i[1] not in ("+", "-", "*", "/", "%"):
            return ["idx", e[1], ["bin", "+", ["int", 0], e[2] if e[2][0] == "paren" else ["paren", e[2]]]]
    return e


def expr(e, ok=True):
    """Rewrites a full expression outside a test; ok: plain && and || may stay."""
    if not isinstance(e, list) or not e:
        return e
    k = e[0]
    if k in ("and", "or"):
        a, b = expr(e[1], ok), expr(e[2], ok)
        if ok and not has_call(e):
            return seq([k, a, b])
        return ["paren", ["bin", "&" if k == "and" else "|", ["paren", nz(a)], ["paren", nz(b)]]]
    if k == "call":
        return ["call", e[1], [expr(x, ok) for x in e[2]]]
    if k == "asg":
        return ["asg", e[1], lval(expr(e[2], ok)), expr(e[3], ok)]
    if k == "inc":
        return ["inc", e[1], e[2], lval(expr(e[3], ok))]
    if k == "addr":
        return ["addr", expr(e[1], ok)]
    if k in ("int", "str", "var", "cst", "chr", "sizeof"):
        return e
    r = [k] + [expr(x, ok) if isinstance(x, list) else x for x in e[1:]]
    return seq(r) if k in ("cond", "comma") else r


def test(e):
    k = e[0]
    if k == "paren":
        return ["paren", test(e[1])]
    if k in ("and", "or"):
        return [k, test(e[1]), test(e[2])]
    return expr(e)


def init(i):
    return i


def stmt(s):
    if s is None:
        return None
    k = s[0]
    if k == "expr":
        return ["expr", expr(s[1])]
    if k == "if":
        return ["if", test(s[1]), stmt(s[2]), stmt(s[3])]
    if k == "while":
        return ["while", test(s[1]), stmt(s[2])]
    if k == "do":
        return ["do", stmt(s[1]), test(s[2])]
    if k == "for":
        a = s[1]
        if a is not None:
            a = stmt(a) if a[0] in ("expr", "decl") else expr(a)
        return ["for", a, test(s[2]) if s[2] is not None else None, expr(s[3]) if s[3] is not None else None, stmt(s[4])]
    if k == "block":
        return ["block", [stmt(x) for x in s[1]]]
    if k == "return":
        return ["return", expr(s[1]) if s[1] is not None else None]
    if k == "decl":
        if len(s) > 3 and s[3] is not None:
            return s[:3] + [expr(s[3])] + s[4:]
        return s
    if k == "switch":
        return ["switch", expr(s[1]), [[g[0], [stmt(x) for x in g[1]]] for g in s[2]]]
    if k == "label":
        return ["label", s[1], stmt(s[2])]
    return s


def program(P):
    P.funcs = [(n, r, ps, [stmt(x) for x in b]) for n, r, ps, b in P.funcs]
    return P
