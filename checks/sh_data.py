"""Shell back end: strings, characters, globals, arrays, enumerations and structures hold the values C gives them."""
import random
from absint import is_int, t_scale
from shgen import Rejected
from shsem import ShellSyntax, Unsupported
from shtext import ShFile, execute

FUNCS = ["comp_glo_decl", "comp_glo_var_decl", "comp_assignment", "comp_initializer_list", "initializer_list_len", "comp_enum_cases", "comp_struct",
         "handle_typedef", "handle_enum_struct_union_type_decl", "handle_var_decl_type", "escape_text", "print_escaped_string", "print_escaped_char",
         "comp_defstr", "fresh_string_ident", "character_ident", "struct_member_var", "struct_sizeof_var", "global_var", "format_special_var",
         "runtime_defstr", "runtime_unpack_escaped_string", "runtime_char_to_int", "runtime_defarr", "runtime_initialize", "runtime_malloc",
         "produce_runtime", "epilogue", "codegen_glo_decl", "print_glo_decls", "comp_rvalue_go", "comp_glo_fun_decl"]
SPECIAL = [ord(c) for c in "`$\\\"'\n\t *?[]!#&;()<>|~%{}=-^,./:@_+"] + [7, 8, 11, 12, 13, 127]
DIGITS = [ord(c) for c in "0179naftx"]


def K(i, k=1):
    return t_scale(("v", "num.%d" % i), k)


def lit(bs):
    """C spelling of a string of bytes in the schema."""
    return '"' + "".join("\\x%02x" % b for b in bs) + '"'


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def debruijn(xs):
    """A sequence in which every ordered pair of xs occurs."""
    n = len(xs)
    out = [xs[0]]
    used = {}
    stack = [0]
    path = []
    nxt = [0] * n
    while stack:
        v = stack[-1]
        if nxt[v] < n:
            nxt[v] += 1
            stack.append(nxt[v] - 1)
        else:
            path.append(stack.pop())
    return [xs[i] for i in reversed(path)]


class Data:
    def __init__(self, cfg):
        self.cfg = cfg
        self.base = ShFile(cfg)

    def gen(self, src):
        g = self.base.fork()
        g.toks = []
        return g.program(src)

    def go(self, rep, rule, key, src, want, must=True, args=(), where="sh.c:comp_glo_decl"):
        """`want`: the values main passes to obs(), row by row."""
        key = "%s [%s]" % (key, self.cfg)
        try:
            text = self.gen(src)
        except Rejected as x:
            return rep.ob(rule, not must, key + " rejected", where, "the back end rejects it: %s" % x.message) if must else True
        rows = []

        def obs(x, a, redirs):
            vs = []
            for q in a[1:]:
                v = x.value(q)
                if not is_int(v) and v[0] in ("s", "mix", "ref"):
                    v = x.number(v, "an operand")
                vs.append(v)
            rows.append(vs)
            x.w.write(x.dest(a[0]), 0)
            return True
        try:
            w, o, end = execute(text, args, {}, "", intr={"_obs": obs}, steps=20000000)
        except (ShellSyntax, Unsupported) as x:
            return rep.ob(rule, False, key, where, "the emitted program does not run: %s" % x)
        odd = [e for e in w.events if e[0] != "exit"]
        if odd:
            return rep.ob(rule, False, key + " event", where, "the emitted program meets %s" % (odd[:2],))
        if not rep.ob(rule, end == "exit" and w.events[-1][:2] == ("exit", 0), key + " end", where,
                      "the emitted program does not reach its end: %s %s" % (end, [e for e in w.events[-3:]]), None):
            return
        ok = len(rows) == len(want) and all(len(a) == len(b) and all(x == y for x, y in zip(a, b)) for a, b in zip(rows, want))
        msg = ""
        if not ok:
            k = next((i for i in range(max(len(rows), len(want))) if i >= len(rows) or i >= len(want) or rows[i] != want[i]), 0)
            msg = "observation %d is %s instead of %s" % (k, rows[k] if k < len(rows) else "missing", want[k] if k < len(want) else "nothing")
        rep.ob(rule, ok, key, where, msg, key)


# ------------------------------------------------------------------ strings
def prog_locals(strs):
    body = ["char *s;"]
    want = []
    for b in strs:
        body.append("s = %s; obs(%s);" % (lit(b), ", ".join("s[%d]" % i for i in range(len(b) + 1))))
        want.append(list(b) + [0])
    return "int main() { %s return 0; }" % " ".join(body), want


def jobs_strings(quick):
    allb = [[b] for b in range(256)]
    for c in chunks(allb, 16):
        src, want = prog_locals(c)
        yield "bytes %02x-%02x" % (c[0][0], c[-1][0]), src, want
    for b in [0] + SPECIAL:
        src, want = prog_locals([[b], [b, 97], [97, b], [b, b], [97, b, 98], [b, 48], [48, b], [b, b, b, b]])
        yield "byte %02x around letters" % b, src, want
    seq = debruijn(SPECIAL + DIGITS)
    strs = [seq[i:i + 41] for i in range(0, len(seq), 40)]
    for i, c in enumerate(chunks(strs, 4)):
        src, want = prog_locals(c)
        yield "pairs of special bytes %d" % i, src, want
    plain = [97 + i % 26 for i in range(600)]
    lens = list(range(0, 36)) + [47, 48, 49] + [254, 255, 256, 257, 258, 270, 271, 272, 273, 288, 511, 512, 513, 528]
    for n in lens:
        src = "int main() { char *s = %s; int i = 0; while (i < %d) { obs(s[i]); i += 1; } return 0; }" % (lit(plain[:n]), n + 1)
        yield "length %d" % n, src, [[c] for c in plain[:n]] + [[0]]
    for n in ([15, 16, 255, 256] if quick else list(range(10, 34)) + list(range(250, 275))):
        for d in (range(-3, 3) if n < 40 else range(-2, 2)):
            for e in ([10], [92], [36], [34, 96]) if n < 40 else ([10], [36]):
                k = n + d
                s = plain[:k] + e + plain[k:k + 20]
                src = "int main() { char *s = %s; int i = %d; while (i < %d) { obs(s[i]); i += 1; } return 0; }" % (lit(s), max(0, k - 4), len(s) + 1)
                yield "escape %02x at %d" % (e[0], k), src, [[c] for c in s[max(0, k - 4):]] + [[0]]


FORMS = {
    "global pointer": lambda t, n: ("char *s = %s;" % t, "", "s"),
    "global array": lambda t, n: ("char s[] = %s;" % t, "", "s"),
    "sized array": lambda t, n: ("char s[%d] = %s;" % (n + 1, t), "", "s"),
    "array of strings": lambda t, n: ('char *s[3] = {"p", %s, "q"};' % t, "", "s[1]"),
    "unsized array of strings": lambda t, n: ('char *s[] = {%s, "q", %s};' % (t, t), "", "s[2]"),
    "local": lambda t, n: ("", "char *s = %s;" % t, "s"),
    "assigned global": lambda t, n: ("char *s;", "s = %s;" % t, "s"),
    "argument": lambda t, n: ("int put(char *s, int k) { obs(s[k]); return 0; }", "", "@put(%s, %%d)" % t),
    "returned": lambda t, n: ("char *get() { return %s; }" % t, "char *s = get();", "s"),
    "conditional": lambda t, n: ("", 'char *s = %s; int k = 1; s = k ? %s : "w";' % (t, t), "s"),
    "element": lambda t, n: ("", "", t),
    "in condition": lambda t, n: ("", 'char *s; if (s = %s) obs(1);' % t, "s"),
    "member": lambda t, n: ("struct b { int k; char *t; };", "struct b *p = malloc(sizeof(struct b)); p->t = %s;" % t, "p->t"),
    "cell": lambda t, n: ("char *v[2];", "v[1] = %s;" % t, "v[1]"),
    "argument with others": lambda t, n: ('int put(int a, char *s, char *u, int k) { obs(s[k]); if (u[0] != 117) obs(a); return 0; }', "", '@put(1, %s, "u", %%d)' % t),
    "with other literals": lambda t, n: ('char *z = "zz"; int id(char *c) { return c[0]; }', 'char *s; char *u; id("y"); s = %s; u = "xx"; id("w"); if (z[1] != 122) obs(z[1]); if (u[1] != 120) obs(u[1]);' % t, "s"),
}


def jobs_forms():
    texts = {"plain": b"hello", "empty": b"", "specials": b"`$x \"q\" \\n 'r'\n*?[a]!\t%d\\", "newline end": b"ab\n", "blank": b"  ", "option": b"-n", "digits": b"0123",
             "dollar": b"$", "backslash": b"\\", "nul inside": b"a\x00b", "long": b"abcdefghijklmnopqrstuvwxyz\n0123456789"}
    for fn, f in FORMS.items():
        for tn, t in texts.items():
            bs = list(t)
            g, l, e = f(lit(bs), len(bs))
            want = [[c] for c in bs + [0]]
            if fn == "in condition":
                want = [[1]] + want
            if e[0] == "@":
                reads = " ".join(e[1:] % i + ";" for i in range(len(bs) + 1))
            else:
                reads = " ".join("obs(%s[%d]);" % (e, i) for i in range(len(bs) + 1))
            yield "%s string, %s" % (tn, fn), "%s int main() { %s %s return 0; }" % (g, l, reads), want
    for tn, t in texts.items():
        bs = list(t)
        n = len(bs) + 1
        for z in (1, 2, 7):
            yield "%s string in an array %d longer" % (tn, z), "int a = 5; char s[%d] = %s; int b[2] = {6, 7}; int main() { %s obs(a, b[0], b[1]); return 0; }" % (
                n + z, lit(bs), " ".join("obs(s[%d]);" % i for i in range(n + z))), [[c] for c in bs] + [[0]] * (z + 1) + [[5, 6, 7]]
    # the same literal, and literals spelled like names used otherwise
    yield "same literal in two functions", 'char *f() { return "same"; } char *g() { return "same"; } int main() { char *s = f(); char *t = g(); obs(s[0], t[3], s[4]); return 0; }', [[115, 101, 0]]
    for wd in ("main", "int", "s", "obs", "x", "while", "defstr", "0", "_", "argv"):
        yield "literal spelled %s" % wd, 'int x = 3; char *k = "%s"; int f(int s) { char *t = "%s"; return t[0] + s; } int main() { char *s = "%s"; int r = f(1); obs(s[0], k[0], r, x); while (x) { x = 0; } return 0; }' % (wd, wd, wd), \
            [[ord(wd[0]), ord(wd[0]), ord(wd[0]) + 1, 3]]
    many = ["k%d" % i for i in range(30)]
    yield "thirty literals", "int main() { char *s; %s return 0; }" % " ".join('s = "%s"; obs(s[1], s[2]);' % m for m in many), [[ord(m[1]), ord(m[2]) if len(m) > 2 else 0] for m in many]
    yield "literals are apart", 'char *a = "abc"; char b[4] = "def"; char *c[2] = {"ghi", "jkl"}; int main() { char *d = "mno"; int i = 0; ' \
        'while (i < 3) { b[i] = 65 + i; i += 1; } obs(a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]); obs(c[0][0], c[0][2], c[0][3], c[1][0], c[1][3], d[0], d[3]); return 0; }', \
        [[97, 98, 99, 0, 65, 66, 67, 0], [103, 105, 0, 106, 0, 109, 0]]
    yield "literal used in a loop", 'int main() { int i = 0; char *s; while (i < 3) { s = "lp"; obs(s[0], s[1], s[2]); i += 1; } return 0; }', [[108, 112, 0]] * 3


# ------------------------------------------------------------------ characters and numbers
def jobs_values():
    for c in chunks(list(range(256)), 16):
        for where in ("local", "global", "array", "enum", "case", "condition", "operand"):
            for b in c:
                ch = "'\\x%02x'" % b
                src, want = {
                    "local": ("int main() { int c = %s; obs(c, %s); return 0; }", [b, b]),
                    "global": ("int c = %s; int main() { obs(c, %s); return 0; }", [b, b]),
                    "array": ("int c[2] = {%s, %s}; int main() { obs(c[0], c[1]); return 0; }", [b, b]),
                    "enum": ("enum {C = %s, D}; int main() { obs(C, %s); return 0; }", [b, b]),
                    "case": ("int main() { int r = 0; switch (%d) { case %%s: r = 1; break; default: r = 2; } obs(r, %%s); return 0; }" % b, [1, b]),
                    "condition": ("int main() { int c = %d; if (c == %%s) c = 1000; obs(c, %%s); return 0; }" % b, [1000, b]),
                    "operand": ("int main() { int c = 2; c = c * %s - 1; obs(c, %s + 0); return 0; }", [2 * b - 1, b]),
                }[where]
                if where in ("global", "operand", "case") or b < 128:
                    yield "character %02x, %s" % (b, where), src % (ch, ch), [want], False if b >= 127 or b < 32 else True
    exprs = {"7": 7, "-7": -7, "0": 0, "0x1F": 31, "-0x1F": -31, "017": 15, "0777": 511, "0xff": 255, "'a'": 97, "-'a'": -97, "~5": -6, "!0": 1, "!3": 0, "+4": 4, "(9)": 9, "-(2)": -2, "- -3": 3,
             "2 + 3 * 4": 14, "(2 + 3) * 4": 20, "7 / 2": 3, "-7 / 2": -3, "-7 % 3": -1, "1 << 5": 32, "-16 >> 2": -4, "6 & 3": 2, "6 | 3": 7, "6 ^ 3": 5, "3 > 2": 1, "3 < 2": 0, "2 == 2": 1,
             "2 != 2": 0, "3 >= 3": 1, "4 <= 3": 0, "2 && 3": 1, "0 || 0": 0, "3 > 2 ? 7 : 8": 7, "0 ? 7 : 8": 8, "(char)65": 65, "sizeof(int)": 1, "sizeof(char*)": 1, "'a' + 2 * 'b'": 97 + 196,
             "10 - 3 - 2": 5, "100 / 5 / 2": 10, "2147483647": 2147483647, "-2147483647 - 1": -2147483648, "E": 6, "E + 1": 7, "-E": -6, "E * E": 36, "$1": K(1), "-$1": K(1, -1), "$1 + $2 * 2": None,
             "010 + 1": 9, "0x10 - 1": 15, "'0'": 48, "' '": 32, "'\\n'": 10, "'\\''": 39, "'\"'": 34, "'\\\\'": 92, "'\\0'": 0, "'$'": 36, "'`'": 96}
    from absint import t_add
    exprs["$1 + $2 * 2"] = t_add(K(1), K(2, 2))
    for e, v in exprs.items():
        yield "global = %s" % e, "enum {E = 6}; int a = 1, x = %s, b = 2; int main() { obs(a, x, b); return 0; }" % e, [[1, v, 2]], True
        yield "static char = %s" % e, "enum {E = 6}; static char x = %s; int main() { obs(x); x = 5; obs(x); return 0; }" % e, [[v], [5]], True
    for e in ("7", "0", "0x1F", "017", "'a'", "$1", "2147483647", "'\\n'"):
        v = exprs[e]
        yield "element %s" % e, "int g = 3; int x[4] = {%s, 1, %s}; int h = 4; int main() { obs(x[0], x[1], x[2], x[3], g, h); return 0; }" % (e, e), [[v, 1, v, 0, 3, 4]], True
        yield "elements %s" % e, "int x[] = {1, %s, %s}; int y[] = {%s}; int main() { obs(x[0], x[1], x[2], y[0]); return 0; }" % (e, e, e), [[1, v, v, v]], True
    yield "several declarators", "int a = 1, b, c = 3, *p, d[2], e = 5; int main() { b = 2; p = d; d[1] = 4; obs(a, b, c, p[1], e); return 0; }", [[1, 2, 3, 4, 5]], True
    yield "globals start at zero", "int a; char c; char *p; int *q; int f() { return a; } int main() { obs(a, c, p, q, f()); return 0; }", [[0, 0, 0, 0, 0]], True
    yield "global after functions", "int f() { return 1; } int a = 4; int g() { return a; } int b[2] = {5, 6}; int main() { obs(f(), g(), b[1]); return 0; }", [[1, 4, 6]], True
    yield "shadowed global", "int a = 1; int f(int a) { a = 5; return a; } int main() { int r = f(2); obs(a, r); return 0; }", [[1, 5]], True
    yield "local shadows global", "int a = 1; int g() { return a; } int main() { int a = 2; obs(a, g()); return 0; }", [[2, 1]], True


# ------------------------------------------------------------------ arrays
def jobs_arrays(init_globals):
    r = random.Random(5)  # same arrays on every run
    for n in (1, 2, 3, 5, 9):
        for m in range(0, n + 1):
            vals = [r.randint(1, 99) for _ in range(m)]
            if m == 0 and not init_globals:
                continue
            decl = "int x[%d]%s;" % (n, " = {%s}" % ", ".join(map(str, vals)) if m else "")
            yield "array of %d, %d given" % (n, m), "int a[2] = {7, 8}; %s int b[1] = {9}; int main() { int i = 0; while (i < %d) { obs(x[i]); i += 1; } obs(a[0], a[1], b[0]); return 0; }" % (decl, n), \
                [[v] for v in vals + [0] * (n - m)] + [[7, 8, 9]], True
    yield "arrays are apart", "int a[3]; char b[4]; int c[2]; int d; char *e[2]; int main() { int i; int *p = malloc(3); int *q = malloc(2);" \
        " for (i = 0; i < 3; i += 1) { a[i] = 10 + i; p[i] = 50 + i; } for (i = 0; i < 4; i += 1) b[i] = 20 + i; for (i = 0; i < 2; i += 1) { c[i] = 30 + i; q[i] = 60 + i; e[i] = 70 + i; } d = 40;" \
        " for (i = 0; i < 3; i += 1) obs(a[i], p[i]); for (i = 0; i < 4; i += 1) obs(b[i]); for (i = 0; i < 2; i += 1) obs(c[i], q[i], e[i]); obs(d); return 0; }", \
        [[10, 50], [11, 51], [12, 52], [20], [21], [22], [23], [30, 60, 70], [31, 61, 71], [40]], True
    for n in ("(2 + 3)", "'\\x03' + 2", "0x5", "05", "1 << 2 | 1", "sizeof(int) * 5", "-(-5)"):
        yield "array size %s" % n, "int x[%s]; int y = 3; int z[1]; int main() { x[4] = 1; z[0] = 2; obs(x[4], y, z[0]); return 0; }" % n, [[1, 3, 2]], False
    if init_globals:
        yield "array without initialiser starts at zero", "int a[3] = {1, 2, 3}; int x[4]; char c[2]; int *p; int main() { obs(x[0], x[1], x[2], x[3], c[0], c[1], p); return 0; }", [[0] * 7], True
    for n in (1, 4):
        yield "initialised array of %d after a plain one" % n, "int u[2]; int x[%d] = {5}; int v[3]; int y[] = {1, 2, 3}; int main() { u[1] = 8; v[2] = 9; obs(%s, u[1], v[2], y[0], y[2]); return 0; }" % (n, ", ".join("x[%d]" % i for i in range(n))), \
            [[5] + [0] * (n - 1) + [8, 9, 1, 3]], True
        yield "string array after a plain one, %d" % n, "int u[2]; char *x[%d] = {\"ab\"}; char z[] = \"q\"; int main() { obs(x[0][1], z[0]); return 0; }" % n, [[98, 113]], True
    yield "array passed and changed", "int x[3] = {1, 2, 3}; int f(int *p, int n) { p[n] = 9; return p[n - 1]; } int main() { int r = f(x, 2); obs(r, x[0], x[1], x[2]); return 0; }", [[2, 1, 2, 9]], True
    yield "pointer into array", "int x[4] = {1, 2, 3, 4}; int main() { int *p = x + 1; p += 1; *p = 8; p[1] = 7; obs(x[0], x[1], x[2], x[3], p - x, *(x + 3), *x); return 0; }", [[1, 2, 8, 7, 2, 7, 1]], True
    yield "malloc and free", "int main() { int *a = malloc(2); int *b; int *c; a[0] = 1; a[1] = 2; b = malloc(3); b[2] = 5; free(a); c = malloc(2); c[0] = 6; c[1] = 7; obs(b[2], c[0], c[1]); b[0] = 8; obs(c[0], c[1], b[0], b[2]); free(c); free(b); return 0; }", \
        [[5, 6, 7], [6, 7, 8, 5]], True
    yield "malloc returns distinct objects", "int main() { int *a = malloc(1); int *b = malloc(1); int *c = malloc(0); obs(a != b, b != c, a != 0, b != 0); return 0; }", [[1, 1, 1, 1]], True


# ------------------------------------------------------------------ enumerations, structures, arguments
def jobs_types():
    ens = {"A": [0], "A, B": [0, 1], "A = 5, B": [5, 6], "A = -3, B, C": [-3, -2, -1], "A, B = 5, C": [0, 5, 6], "A = 'a', B": [97, 98], "A = 1 << 4, B = (2 | 1), C": [16, 3, 4],
           "A = 0x10, B = 010": [16, 8], "A = 3, B = 3, C = 1": [3, 3, 1], "A = 2147483647": [2147483647], "A = -1, B": [-1, 0], "A, B, C, D, E, F": [0, 1, 2, 3, 4, 5], "A = $1": [K(1)]}
    for t, vs in ens.items():
        ns = "ABCDEF"[:len(vs)]
        names = ", ".join(ns)
        yield "enum {%s}" % t, "enum {%s}; int main() { obs(%s); return 0; }" % (t, names), [vs]
        yield "enum e {%s} object" % t, "enum e {%s}; enum e g = A; int main() { enum e x = %s; obs(x, g, %s); return 0; }" % (t, ns[-1], names), [[vs[-1], vs[0]] + vs]
        yield "typedef enum {%s}" % t, "typedef enum {%s} e; e g = %s; int f(e x) { return x; } int main() { obs(g, f(A), %s); return 0; }" % (t, ns[-1], names), [[vs[-1], vs[0]] + vs]
        yield "enum {%s} with its object" % t, "enum e {%s} g = %s, h; int main() { h = A; obs(g, h, %s); return 0; }" % (t, ns[-1], names), [[vs[-1], vs[0]] + vs]
        if len(set(map(repr, vs))) == len(vs):
            yield "enum {%s} in a switch" % t, "enum {%s}; int f(int k) { switch (k) { %s } return -1; } int main() { %s return 0; }" % (
                t, " ".join("case %s: return %d;" % (n, 10 + i) for i, n in enumerate(ns)), " ".join("obs(f(%s));" % n for n in ns)), [[10 + i] for i in range(len(vs))]
    for n in range(1, 8):
        ms = ["m%d" % i for i in range(n)]
        types = ["int %s;", "char *%s;", "struct s *%s;", "char %s;", "int *%s;"]
        decl = " ".join(types[i % len(types)] % m for i, m in enumerate(ms))
        for how, (pre, ty) in {"struct": ("struct s { %s };" % decl, "struct s"), "typedef": ("typedef struct t { %s } t;" % decl.replace("struct s", "struct t"), "t"),
                               "typedef before": ("typedef struct t t; struct t { %s };" % decl.replace("struct s", "t"), "t"), "with object": ("struct s { %s } *obj;" % decl, "struct s"),
                               "anonymous typedef": ("typedef struct { %s } t;" % decl.replace("struct s *", "char *"), "t")}.items():
            src = "%s %s *g; int pad = 77; int main() { %s *p = malloc(sizeof(%s)); %s *q = malloc(sizeof(%s)); g = p; %s %s obs(sizeof(%s), pad); return 0; }" % (
                pre, ty, ty, ty, ty, ty, " ".join("p->%s = %d; q->%s = %d;" % (m, 10 + i, m, 50 + i) for i, m in enumerate(ms)),
                " ".join("obs(p->%s, q->%s, g->%s);" % (m, m, m) for m in ms), ty)
            yield "%s of %d" % (how, n), src, [[10 + i, 50 + i, 10 + i] for i in range(n)] + [[n, 77]]
    yield "two structs", "struct a { int x; int y; }; struct b { int u; int v; int w; }; int main() { struct a *p = malloc(sizeof(struct a)); struct b *q = malloc(sizeof(struct b)); p->x = 1; p->y = 2; q->u = 3; q->v = 4; q->w = 5;" \
        " obs(p->x, p->y, q->u, q->v, q->w, sizeof(struct a), sizeof(struct b)); return 0; }", [[1, 2, 3, 4, 5, 2, 3]]
    yield "linked list", "struct n { int v; struct n *next; }; struct n *cons(int v, struct n *t) { struct n *p = malloc(sizeof(struct n)); p->v = v; p->next = t; return p; } int main() { struct n *l = cons(1, cons(2, cons(3, 0)));" \
        " l->next->v += 40; while (l) { obs(l->v); l = l->next; } return 0; }", [[1], [42], [3]]
    yield "member updates", "struct n { int v; int w; }; int main() { struct n *p = malloc(sizeof(struct n)); int r; p->v = 3; p->w = 9; r = p->v++; p->v *= 5; ++p->w; p->w -= p->v; obs(r, p->v, p->w); return 0; }", [[3, 20, -10]]
    yield "sizes", "struct s { int a; int b; }; typedef struct s s; int main() { obs(sizeof(int), sizeof(char), sizeof(char*), sizeof(struct s*), sizeof(s), sizeof(struct s) * 3); return 0; }", [[1, 1, 1, 1, 2, 6]]
    for n in range(0, 4):
        av = ["x%d y" % i for i in range(n)]
        av = av[:2] + ["", "*"][:max(0, n - 2)]
        vs = ["prog"] + av
        src = "int main(int argc, char **argv) { int i; int j; obs(argc); for (i = 0; i < argc; i += 1) { j = 0; while (argv[i][j]) { obs(argv[i][j]); j += 1; } obs(0); } return 0; }"
        want = [[len(vs)]]
        for v in vs:
            want += [[ord(c)] for c in v] + [[0]]
        yield ("%d arguments" % n, src, want, av)
    yield ("argument bytes", "int main(int argc, char **argv) { int j = 0; while (argv[1][j]) { obs(argv[1][j]); j += 1; } return 0; }",
           [[b] for b in range(1, 128)], ["".join(chr(b) for b in range(1, 128))])


def jobs_names():
    names = ["c", "i", "ptr", "str", "addr", "buf", "fd", "len", "size", "tmp", "end", "count", "byte", "file", "char_", "res", "ret", "t1", "str_0", "SP", "ALLOC", "code", "argc", "width", "flags",
             "fi", "then", "done", "esac", "elif", "function", "select", "until", "time", "set", "shift", "unset", "test", "echo", "export", "eval", "exec", "let", "endlet", "local", "trap",
             "defstr", "defarr", "initialize", "unpack_string", "true", "false", "n", "x1", "aVeryLongNameWithManyCharactersInIt_0123456789", "m", "A", "Z9", "a_b", "sizeof_", "c2i_a", "LC_ALL", "argv", "main"]
    for n in names:
        if n != "main":
            yield "local %s" % n, "int f(int k) { int %s = k; %s += 1; { char *q = \"ab\"; %s += q[0]; } return %s; } int main() { int %s = 3; int r = f(4); obs(r, %s); %s = r; obs(%s, f(%s)); return 0; }" % ((n,) * 9), \
                [[102, 3], [102, 200]], False
            yield "parameter %s" % n, "int f(int %s, int k) { %s = %s * k; return %s; } int main() { char *q = malloc(2); q[1] = 9; obs(f(5, 3), q[1]); return 0; }" % (n, n, n, n), [[15, 9]], False
            yield "global %s" % n, "int %s = 4; int f(int k) { %s += k; return %s; } int main() { char *q = \"xyz\"; int r = f(2); obs(r, %s, q[2]); return 0; }" % (n, n, n, n), [[6, 6, 122]], False
            yield "global array %s" % n, "int %s[3]; int main() { char *q = \"xyz\"; %s[2] = 5; %s[1] = 6; obs(%s[2], %s[1], q[0]); return 0; }" % ((n,) * 5), [[5, 6, 120]], False
            yield "enumerator %s" % n, "enum { ZZ, %s = 12 }; int main() { int v = %s; char *q = \"xyz\"; obs(v, %s, q[0], 'a'); return 0; }" % (n, n, n), [[12, 12, 120, 97]], False
            yield "function %s" % n, "int %s(int k) { char *q = \"xyz\"; return q[k]; } int main() { obs(%s(0), %s(2)); return 0; }" % (n, n, n), [[120, 122]], False
    for a, b in (("x", "x"), ("a", "aa"), ("v1", "v2"), ("ab", "a_b")):
        yield "names %s and %s as different kinds" % (a, b), "struct s { int %s; int mm; }; enum { EE%s = 7 }; int %s = 3; int f(int %s) { %s += 1; return %s; } int main() { struct s *p = malloc(sizeof(struct s)); p->mm = 1; p->%s = 5; obs(f(9), %s, p->%s, p->mm, EE%s); return 0; }" % (
            a, a, b, a, a, a, a, b, a, a), [[10, 3, 5, 1, 7]], True


def run(rep):
    rep.rule("string", "every byte, ordered pairs of the bytes special to the shell, lengths and escapes around the chunk sizes of the runtime, in every kind of place a literal is accepted")
    rep.rule("form", "literals in every place they are accepted")
    rep.rule("value", "every character constant and every kind of constant initialiser of globals and array elements")
    rep.rule("array", "sizes, partial initialisers, disjointness of objects")
    rep.rule("type", "enumerations, structures, typedefs, sizeof and the arguments of main")
    rep.rule("name", "variables, functions, enumerators and members whose names resemble those of the shell, of the compiler and of the runtime")
    rep.trusted += ["shell semantics lib/shsem.py and lib/shtext.py (parameter expansion, patterns, printf, set)"]
    rep.assumptions += ["literals and schemas are the enumerated ones; integer leaves written $k are unknown numbers", "sizes count shell cells: every scalar is one cell"]
    quick = rep.tier != "thorough"
    tasks = []
    for cfg in (["sh", "sh-fast", "sh-init"] if quick else ["sh", "sh-fast", "sh-release", "sh-safe", "sh-init", "sh-compact", "sh-inline", "sh-noprintf"]):
        d = Data(cfg)
        rep.use(d.base.u, FUNCS)
        jobs = [("string", k, s, w, False if k.startswith("bytes") else True) for k, s, w in jobs_strings(quick)]
        jobs += [("form", k, s, w, True) for k, s, w in jobs_forms()]
        jobs += [("value", k, s, w, m) for k, s, w, m in jobs_values()]
        jobs += [("array", k, s, w, m) for k, s, w, m in jobs_arrays(cfg == "sh-init")]
        jobs += [("name", k, s, w, m) for k, s, w, m in jobs_names()]
        jobs += [("type", j[0], j[1], j[2], True) + tuple(j[3:]) for j in jobs_types() if j[2] is not None]
        if quick and cfg != "sh":
            jobs = [j for j in jobs if j[0] in ("array", "type") or j[0] != "value" and cfg == "sh-fast"]
        n = 24
        for i in range(n):
            tasks.append(("%s/%d" % (cfg, i), lambda r, d=d, js=jobs[i::n]: [d.go(r, *j) for j in js]))
    rep.parallel(tasks)
    for k, m in (("string", 100), ("form", 150), ("value", 400), ("array", 20), ("type", 80), ("name", 200)):
        rep.expect(k, m)
