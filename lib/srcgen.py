"""Source programs for the compiler's own properties (C11-C16): generated
programs, the repository's sample programs, decorations of the preprocessor,
and mutations that may make a program invalid."""
import os, re
import build, gen, iogen, minic, shgen, wide

_corpus = None
DIRS = ("tests/_all", "tests/_exe", "tests/_sh", "examples")


def corpus():
    """Sample programs of the tree that include nothing but system headers."""
    global _corpus
    if _corpus is None:
        _corpus = []
        for d in DIRS:
            for base, ds, fs in os.walk(os.path.join(build.REPO, d)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(base, f)
                    if f.endswith(".c") and os.path.getsize(p) < 16000:
                        s = open(p, "rb").read()
                        if b'#include "' not in s and b"include_shell" not in s and b"\r" not in s:
                            _corpus.append((os.path.relpath(p, build.REPO), s.decode("latin1")))
    return _corpus


def style(c):
    return gen.Choices(replay=[c(7) for _ in range(12)])


def generated(c, sh, size=None, x64=False):
    k = c(6)
    if sh:
        if k < 4:
            g = gen.Gen(c, "sh", size=size or 3 + c(14), feats={"init_arrays": 1})
        else:
            g = (shgen.InSh, shgen.OutSh, shgen.FdSh, shgen.HeapSh)[c(4)](c, {"names": ["a", "b c"]}, size or 3 + c(8), "ksh")
    else:
        if k < 2:
            g = gen.Gen(c, "exe", size=size or 4 + c(18))
        elif k < 4:
            g = wide.Wide(c, "exe", size=size or 4 + c(18), feats={"x64": int(x64), "stmts": [("w_stmt", 60)]})
        else:
            n = size or 4 + c(10)
            k = c(4)
            g = [iogen.SysIO, iogen.CharIO, iogen.HeapProg, iogen.ArgsProg][k](c, size=n, feats=[{"mac": 0}, {}, {"heap": 104857600, "big": 0, "a_big": 0}, {}][k])
    return minic.Printer(g.program(), style(c)).program()


TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\d\w*|//[^\n]*|/\*.*?\*/|\s+|[-+*/%&|^=<>!]=?|.', re.S)


def odd_bytes(c):
    """Bytes that mean nothing in a comment: controls, ^Z, what is not ASCII."""
    return "".join(["\x1a", "\xff", "\x80", "\x04", "\x0c", "\x0b", "\x7f", "\x01", "'", '"', "#", "$", "`", "\\", "\xc3\xa9", "\t", " ", "x", chr(128 + c(128)), "\xfe"][c(20)] for _ in range(1 + c(8))).rstrip("\\")


def decorate(c, src):
    """Preprocessor material that does not change the program."""
    L = src.split("\n")
    top = [i for i, l in enumerate(L) if l and l[0] not in " }#\t" and not L[i - 1].endswith("\\") and (i == 0 or not L[i - 1] or L[i - 1][0] in "}" or L[i - 1].endswith(";"))]
    ins = []
    for _ in range(c(5)):
        k = c(11)
        i = top[c(len(top))] if top else 0
        n = "M%d_" % c(50)
        t = [
            "/* %s */" % ("comment " * (1 + c(30))),
            "// line comment " + "x" * c(80),
            "#define %s %d" % (n, c(1000)),
            "#define %s(a, b) ((a) %s (b))\n#undef %s" % (n, "+-*"[c(3)], n),
            "#if 0\n%s\n#endif" % ["int nope(", "#include \"missing.h\"", "garbage ' here", "#if 1\n#else\n#endif"][c(4)],
            "#ifdef %sX\nint nope_%d;\n#else\n#endif" % (n, c(100)),
            "#ifndef %sY\n#define %sY\n#endif" % (n, n),
            "/* multi\n line\n\n comment */",
            "#if defined(%s) || %d > 5 && !0\n#endif" % (n, c(10)),
            "/* %s */" % odd_bytes(c),
            "// %s" % odd_bytes(c).rstrip("\\")][k]
        ins.append((i, t))
    for i, t in sorted(ins, reverse=True):
        L.insert(i, t)
    s = "\n".join(L)
    k = c(6)
    if k == 0:
        s = s.rstrip("\n")
    elif k == 1:
        s = s.replace("\n", "\n\n", 1 + c(5))
    elif k == 2:
        s = "\t" + s + "\n\n \n"
    return s


def mutate(c, src):
    """One or two edits that usually make the program invalid."""
    for _ in range(1 + (c(3) == 2)):
        toks = TOK.findall(src)
        if not toks:
            return src
        i = c(len(toks))
        k = c(9)
        if k == 0:
            toks[i] = ""
        elif k == 1:
            toks[i] = toks[i] * 2
        elif k == 2:
            toks[i] = toks[c(len(toks))]
        elif k == 3:
            j = c(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4:
            toks = toks[:i]
        elif k == 5:
            toks[i] = ["(", ")", "{", "}", ";", ",", "[", "]", "#", "\"", "'", "*", "int", "struct", "0", "return", "case 1:", "?", ":", "unsigned", "\\", "1.5", "99999999999",
                       "enum", "typedef", "sizeof", "goto", "...", "##", "#define", "#if", "@", "`", "$", "\x80", "static", "extern", "-", "NULL", "void"][c(40)]
        elif k == 6:
            toks[i] = toks[i][:c(len(toks[i]) + 1)]
        elif k == 7:
            toks[i] = " undeclared_%d " % c(9)
        else:
            j = min(len(toks), i + 1 + c(12))
            toks[i:j] = []
        src = "".join(toks)
    return src


def source(c, sh, invalid=3, size=None, x64=False):
    """-> (text, drawn as valid). invalid: one in so many is mutated (0: none)."""
    cp = corpus()
    if c(3) == 2 and cp:
        nm, s = cp[c(len(cp))]
    else:
        s = generated(c, sh, size, x64)
    if c(2):
        s = decorate(c, s)
    bad = bool(invalid) and c(invalid) == invalid - 1
    if bad:
        s = mutate(c, s)
    return s, not bad
