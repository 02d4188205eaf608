"""Programs of a chosen size along one dimension, with known output (C16).
A piece is (name, top-level text, value expression of main, its value)."""


def mod(x):
    return x % 10007


def p_idents(c, n, sh):
    ks = [c(n) for _ in range(3)]
    top = "\n".join("int gi%d;" % i for i in range(n))
    return top, "\n".join("gi%d = %d;" % (k, k % 1000) for k in ks), "gi%d + gi%d" % (ks[0], ks[1]), ks[0] % 1000 + ks[1] % 1000


def p_inits(c, n, sh):
    k = c(n)
    return "\n".join("int gv%d = %d;" % (i, i * 7 % 1001) for i in range(n)), "", "gv%d" % k, k * 7 % 1001


def p_enum(c, n, sh):
    k = c(n)
    return "enum { " + ", ".join("EC%d%s" % (i, " = %d" % (i * 3 % 999) if i % 5 == 0 else "") for i in range(n)) + " };", "", "EC%d" % k, k // 5 * 5 * 3 % 999 + k % 5


def p_members(c, n, sh):
    n = min(n, 3000)
    k, j = c(n), c(n)
    top = "struct Big {\n" + "\n".join("  int mb%d;" % i for i in range(n)) + "\n};\nstruct Big *bigp;"
    return top, "bigp = malloc(%d);\nbigp->mb%d = 5;\nbigp->mb%d = %d;" % (4 * n + 64, j, k, k % 997), "bigp->mb%d" % k, k % 997


def p_funs(c, n, sh):
    ks = [c(n) for _ in range(3)]
    top = "\n".join("int fn%d(int x) { return x + %d; }" % (i, i % 100) for i in range(n))
    return top, "", " + ".join("fn%d(1)" % k for k in ks), sum(1 + k % 100 for k in ks)


def p_protos(c, n, sh):
    k = c(n)
    top = "\n".join("int pr%d(int, char *);" % i for i in range(n)) + "\nint pr%d(int a, char *b) { return a * 2; }" % k
    return top, "", "pr%d(21, 0)" % k, 42


def p_typedefs(c, n, sh):
    k = c(n)
    return "\n".join("typedef int ty%d;" % i for i in range(n)) + "\nty%d tyv = %d;" % (k, k % 1000), "", "tyv", k % 1000


def p_macros(c, n, sh):
    k = c(n)
    return "\n".join("#define MC%d (%d + 1)" % (i, i % 1000) for i in range(n)), "", "MC%d" % k, k % 1000 + 1


def p_macro_body(c, n, sh):
    return "#define LONGM(x) (" + " + ".join(["x"] * n) + ")", "", "LONGM(1) % 10007", mod(n)


def p_macro_args(c, n, sh):
    k = c(n)
    return "#define MA(" + ", ".join("a%d" % i for i in range(n)) + ") a%d" % k, "", "MA(" + ", ".join(str(i % 1000) for i in range(n)) + ")", k % 1000


def p_macro_nest(c, n, sh):
    top = "#define MN0 7\n" + "\n".join("#define MN%d MN%d" % (i, i - 1) for i in range(1, n + 1))
    return top, "", "MN%d" % n, 7


def p_macro_grow(c, n, sh):
    d = max(1, n.bit_length() - 1)
    top = "#define MG0 1\n" + "\n".join("#define MG%d MG%d + MG%d" % (i, i - 1, i - 1) for i in range(1, d + 1))
    return top, "", "(MG%d) %% 10007" % d, mod(1 << d)


def p_macro_argnest(c, n, sh):
    return "#define ID(x) x", "", "ID(" * n + "5" + ")" * n, 5


def p_macro_paste(c, n, sh):
    k = min(n, 40)
    top = "#define CAT(a, b) a ## b\n#define STR(x) #x\n" + "int cv%s = 3;" % ("x" * k)
    return top, "", "CAT(cv, %s)" % ("x" * k), 3


def p_ident_len(c, n, sh):
    nm = "q" + "abcdefghij"[c(10)] * n
    return "int %s = 9;" % nm, "", nm, 9


def p_string(c, n, sh):
    k = c(n)
    b = "".join("abcdefghijklmnopqrstuvwxyz0123456789"[(i * 7) % 36] for i in range(n))
    return 'char *sv = "%s";' % b, "", "sv[%d]" % k, ord(b[k])


def p_string_esc(c, n, sh):
    k = c(n)
    return 'char *se = "%s";' % "".join(["\\n", "\\\\", "\\\"", "a", "\\t", "\\'"][i % 6] for i in range(n)), "", "se[%d]" % k, [10, 92, 34, 97, 9, 39][k % 6]


def p_strings(c, n, sh):
    k = c(n)
    return "int sl(char *s) { return s[0] + s[1]; }", "int sr = 0;\n" + "\n".join('sr = (sr + sl("s%dx")) %% 10007;' % i for i in range(n)), "sr", mod(sum(115 + ord(str(i)[0]) for i in range(n)))


def p_adjacent(c, n, sh):
    return 'char *sa = ' + "\n".join('"ab"' for _ in range(n)) + ";", "", "sa[%d]" % (2 * n - 1), 98


def p_sum(c, n, sh):
    return "int sx = 1;", "", "(" + " + ".join(["sx"] * n) + ") % 10007", mod(n)


def p_sum_right(c, n, sh):
    return "int sx2 = 1;", "", "(" + "sx2 + (" * n + "0" + ")" * n + ") % 10007", mod(n)


def p_parens(c, n, sh):
    return "int px = 6;", "", "(" * n + "px" + ")" * n, 6


def p_unary(c, n, sh):
    return "int ux = 6;", "", "- " * (2 * n) + "ux", 6


def p_not(c, n, sh):
    return "int ux2 = 6;", "", "!" * n + "ux2", 0 if n % 2 else 1


def p_and(c, n, sh):
    return "int ax = 1;", "", "(" + " && ".join(["ax"] * n) + ")", 1


def p_cond(c, n, sh):
    return "int cx = 2;", "", "(" + "cx == 1 ? 1 : " * n + "8)", 8


def p_comma(c, n, sh):
    return "int kx;", "kx = 0;\n" + ";\n".join("kx += 1" for _ in range(n)) + ";", "kx % 10007", mod(n)


def p_index(c, n, sh):
    return "int ix[4];", "ix[0] = 0;", "ix[" * n + "0" + "]" * n, 0


def p_calls(c, n, sh):
    return "int nc(int x) { return x + 1; }", "", "nc(" * n + "0" + ")" * n, n


def p_args(c, n, sh):
    n = max(n, 1)
    k = c(n)
    top = "int fa(" + ", ".join("int ar%d" % i for i in range(n)) + ") { return ar%d; }" % k
    return top, "", "fa(" + ", ".join(str(i % 1000) for i in range(n)) + ")", k % 1000


def p_locals(c, n, sh):
    k = c(n)
    top = "int fl(int x) {\n" + "\n".join("  int lo%d = x + %d;" % (i, i % 100) for i in range(n)) + "\n  return lo%d;\n}" % k
    return top, "", "fl(3)", 3 + k % 100


def p_blocks(c, n, sh):
    return "int bx;", "{" * n + " bx = 4; " + "}" * n, "bx", 4


def p_ifs(c, n, sh):
    return "int fx = 1;", "if (fx) {\n" * n + "fx = 2;\n" + "}\n" * n, "fx", 2


def p_elseifs(c, n, sh):
    k = c(n)
    return "int ex = %d;\nint ey;" % k, "".join("if (ex == %d) { ey = %d; } else " % (i, i % 1000) for i in range(n)) + "{ ey = 1001; }", "ey", k % 1000


def p_loops(c, n, sh):
    return "int wx;", "while (wx < 1) {\n" * n + "wx = 3;\n" + "}\n" * n, "wx", 3


def p_cases(c, n, sh):
    k = c(n)
    return "int sw(int x) {\n  switch (x) {\n" + "\n".join("    case %d: return %d;" % (i, i * 5 % 1003) for i in range(n)) + "\n    default: return 2000;\n  }\n  return 0;\n}", "", "sw(%d)" % k, k * 5 % 1003


def p_caselabels(c, n, sh):
    return "int sc(int x) {\n  switch (x) {\n" + "\n".join("    case %d:" % i for i in range(n)) + "\n      return 5;\n  }\n  return 0;\n}", "", "sc(%d)" % c(n), 5


def p_gotos(c, n, sh):
    if sh:
        return None
    return "int go(int x) {\n" + "\n".join("  goto L%d;\nM%d: x += 100;\nL%d: x += 1;" % (i, i, i) for i in range(n)) + "\n  return x % 10007;\n}", "", "go(0)", mod(n)


def p_stmts(c, n, sh):
    return "int stx;", "\n".join("stx = (stx + %d) %% 1009;" % (i % 50) for i in range(n)), "stx", sum(i % 50 for i in range(n)) % 1009


def p_arrinit(c, n, sh):
    k = c(n)
    return "int ai[%d] = {" % n + ", ".join(str(i * 11 % 1013) for i in range(n)) + "};", "", "ai[%d]" % k, k * 11 % 1013


def p_chararr(c, n, sh):
    return "char ca[] = {" + ", ".join(str(65 + i % 26) for i in range(n)) + "};", "", "ca[%d]" % (n - 1), 65 + (n - 1) % 26


def p_array(c, n, sh):
    n *= 8
    return "int ba[%d];" % n, "ba[%d] = 3;\nba[0] = 4;" % (n - 1), "ba[%d] + ba[%d]" % (n - 1, 0 if n > 1 else n - 1), 7 if n > 1 else 8


def p_pointers(c, n, sh):
    if sh:
        return None
    n = min(n, 5000)
    return "int %spp;" % ("*" * n), "", "sizeof(pp) > 0", 1


def p_dims(c, n, sh):
    if sh:
        return None
    n = min(n, 2000)
    return "int md%s;" % ("[1]" * n), "md%s = 6;" % ("[0]" * n), "md%s" % ("[0]" * n), 6


def p_ifdepth(c, n, sh):
    return "#if 1\n" * n + "int id = 2;\n" + "#endif\n" * n, "", "id", 2


def p_iffalse(c, n, sh):
    return "#if 0\n" * n + "int nope(\n" + "#endif\n" * n + "int ie = 2;", "", "ie", 2


def p_comment(c, n, sh):
    return "/*" + "c*" * n + "/ int cm = 1; //" + "x" * n, "", "cm", 1


def p_blank(c, n, sh):
    return " " * n + "\n" * (n // 8 + 1) + "\t" * (n // 8 + 1) + "int bl = 1;", "", "bl", 1


def p_zeros(c, n, sh):
    return "int zz = 0x%s7;" % ("0" * n), "", "zz", 7


def p_ptrfuns(c, n, sh):
    if sh:
        return None
    n = min(n, 3000)
    return "int pf1(int x) { return x + 1; }\nint (*pfa[%d])(int);" % n, "pfa[%d] = pf1;" % (n - 1), "pfa[%d](3)" % (n - 1), 4


def p_structs(c, n, sh):
    k = c(n)
    return "\n".join("struct S%d { int ma%d; struct S%d *mn%d; };" % (i, i, max(0, i - 1), i) for i in range(n)) + "\nstruct S%d *sp;" % k, "sp = malloc(64);\nsp->ma%d = 8;\nsp->mn%d = 0;" % (k, k), "sp->ma%d" % k, 8


def p_decls(c, n, sh):
    k = c(n)
    return "int " + ", ".join("dl%d" % i for i in range(n)) + ";", "dl%d = 6;" % k, "dl%d" % k, 6


def p_sizeofs(c, n, sh):
    return "", "", "(" + " + ".join(["sizeof(char)"] * n) + ") % 10007", mod(n)


def p_huge(c, n, sh):
    """Arrays around the sizes where products and sums of sizes wrap."""
    if sh:
        return None
    k = c(5)
    near = [0, 1, 2, 7, 64, 4096][c(6)] * [1, -1][c(2)]
    if k == 0:
        d, e = "int hu[%d];" % ((1 << 29) + near), "hu[%d]" % ((1 << 29) + near - 1)
    elif k == 1:
        d, e = "int hu[%d];" % ((1 << 30) + near), "hu[%d]" % ((1 << 30) + near - 1)
    elif k == 2:
        d, e = "int hu[65536][%d];" % (16384 + near), "hu[65535][%d]" % (16383 + near)
    elif k == 3:
        d, e = "char hv[2000000000];\nchar hw[2000000000];\nint hu[%d];" % (73741820 + near), "hu[%d]" % (73741819 + near)
    else:
        d, e = "struct Hu { char a[2000000000]; char b[2000000000]; int c[%d]; };\nstruct Hu hu;" % (73741820 + near), "hu.c[1000]"
    return "int hb = 5;\n" + d + "\nint ha[4] = {1, 2, 3, 4};", e + " = 9;", "hb * 100 + ha[0] * 10 + ha[3]", 514


PIECES = [f for nm, f in sorted(globals().items()) if nm.startswith("p_")]


def program(c, pieces, sh):
    """pieces: [(generator, size)] -> (text, expected output) or None"""
    top, body, want = [], [], b""
    for f, n in pieces:
        r = f(c, max(1, n), sh)
        if r is None:
            return None
        top.append(r[0])
        if r[1]:
            body.append(r[1])
        body.append("show(%s);" % r[2])
        want += b"%d\n" % r[3]
    src = "void show(int n) {\n  int d = 1;\n  while (n / d > 9) d = d * 10;\n  while (d > 0) {\n    putchar(48 + n / d % 10);\n    d = d / 10;\n  }\n  putchar(10);\n}\n"
    src += "\n".join(top) + "\nint main() {\n"
    # declarations first, as the dialect of the shell backend wants them in order anyway
    src += "\n".join(body) + "\n  return 0;\n}\n"
    return src, want
