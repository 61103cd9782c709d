"""Shell back end: the input/output and memory functions of the runtime library do what C's do."""
import random
from absint import is_int
from shgen import Rejected
from shsem import ShellSyntax, Unsupported
from shtext import ShFile, execute
from sh_data import lit

FUNCS = ["comp_fun_call_code", "comp_fun_call", "produce_runtime", "runtime_putchar", "runtime_getchar", "runtime_exit", "runtime_malloc", "runtime_free", "runtime_put_pstr",
         "runtime_printf", "runtime_open", "runtime_read_byte", "runtime_read", "runtime_write", "runtime_fopen", "runtime_close", "runtime_fclose", "runtime_fgetc",
         "runtime_make_argv", "runtime_unpack_string", "runtime_char_to_int", "runtime_defstr", "epilogue", "codegen_end"]


class Prog:
    """A program built statement by statement together with what C says it does."""

    def __init__(self):
        self.top = []
        self.body = []
        self.decls = []
        self.rows = []
        self.out = ""
        self.status = 0

    def source(self):
        return "%s int main() { %s %s return 0; }" % (" ".join(self.top), " ".join(self.decls), " ".join(self.body))


class Runtime:
    def __init__(self, cfg):
        self.cfg = cfg
        self.base = ShFile(cfg)

    def go(self, rep, rule, key, src, rows=(), out="", stdin="", files=None, outfiles=None, err="", status=0, args=(), where="sh-runtime.c"):
        key = "%s [%s]" % (key, self.cfg)
        g = self.base.fork()
        try:
            text = g.program(src)
        except Rejected as x:
            return rep.ob(rule, False, key + " rejected", where, "the back end rejects it: %s" % x.message)
        got = []

        def obs(x, a, redirs):
            vs = []
            for q in a[1:]:
                v = x.value(q)
                if not is_int(v) and v[0] in ("s", "mix", "ref"):
                    v = x.number(v, "an operand")
                vs.append(v)
            got.append(vs)
            x.w.write(x.dest(a[0]), 0)
            return True
        try:
            w, o, end = execute(text, args, dict(files or {}), stdin, intr={"_obs": obs}, steps=60000000)
        except (ShellSyntax, Unsupported) as x:
            return rep.ob(rule, False, key, where, "the emitted program does not run: %s" % x)
        odd = [e for e in w.events if e[0] not in ("exit", "open", "close")]
        if odd:
            return rep.ob(rule, False, key + " event", where, "the emitted program meets %s" % (odd[:2],))
        st = w.events[-1][1] if end == "exit" and w.events and w.events[-1][0] == "exit" else 0 if end == "end" else end
        msg = ""
        rows = [list(r) for r in rows]
        if got != rows:
            k = next(i for i in range(max(len(got), len(rows))) if i >= len(got) or i >= len(rows) or got[i] != rows[i])
            msg = "observation %d is %s instead of %s" % (k, got[k] if k < len(got) else "missing", rows[k] if k < len(rows) else "nothing")
        elif w.text_of("stdout") != out:
            msg = "prints %.60r instead of %.60r" % (w.text_of("stdout"), out)
        elif w.text_of("stderr") != err:
            msg = "writes %.60r instead of %.60r to the error output" % (w.text_of("stderr"), err)
        elif st != status:
            msg = "ends with %r instead of exit status %r" % (st, status)
        else:
            for n, t in (outfiles or {}).items():
                if w.text_of("file " + n) != t:
                    msg = "file %s holds %.60r instead of %.60r" % (n, w.text_of("file " + n), t)
        rep.ob(rule, not msg, key, where, msg, key)


# ------------------------------------------------------------------ texts
def texts(quick):
    al = "".join(chr(c) for c in range(32, 127))
    ts = {
        "empty": "", "newline": "\n", "two newlines": "\n\n", "letter": "a", "line": "abc\n", "no final newline": "abc\ndef", "blank lines": "a\n\n\nb\n\n", "leading newline": "\nx\n",
        "spaces": "  a b \n   \n c  ", "tabs": "\ta\t\n\t", "backslashes": "a\\b\\\n\\n\\\\\n\\", "quotes": "'\"`$x ${y} $(z)\n", "globs": "*?[a-z]!{}#~\n*\n", "dashes": "-n\n-e x\n--\n-",
        "printable": al + "\n" + al[::-1], "controls": "".join(chr(c) for c in range(1, 32)) + "\x7f\n", "high": "".join(chr(c) for c in range(128, 256)) + "\nq", "digits": "0123456789\n00\n-1\n",
        "equals": "a=b\n=\n[ x ]\n", "only spaces": "   ", "carriage": "a\r\nb\r\n",
    }
    for n in (15, 16, 17, 31, 32, 33, 255, 256, 257, 272, 273, 512, 513) if quick else list(range(10, 36)) + list(range(250, 275)) + [511, 512, 513, 527, 528, 529]:
        s = "".join(chr(97 + i % 26) for i in range(n))
        ts["line of %d" % n] = s + "\nz\n"
        if n % 16 < 2 or n % 16 == 15:
            ts["text of %d" % n] = s
    for n in (997, 998, 999, 1000, 1001, 1400):
        s = "".join(chr(97 + i % 23) for i in range(n))
        ts["long line of %d" % n] = "ab\n" + s + "\ny\n" + s[:300]
    return ts


def bytes_of(t):
    return [ord(c) for c in t]


def jobs_input(quick):
    ts = texts(quick)
    for n, t in ts.items():
        bs = bytes_of(t)
        if not n.startswith("long") or not quick:
            yield "getchar: %s" % n, "int main() { int c; while ((c = getchar()) != -1) obs(c); obs(getchar()); return 0; }", dict(rows=[[b] for b in bs] + [[-1]], stdin=t)
        yield "fgetc: %s" % n, 'int main() { char *f = fopen("in", "r"); int c; while ((c = fgetc(f)) != -1) obs(c); obs(fgetc(f)); obs(fclose(f)); return 0; }', dict(rows=[[b] for b in bs] + [[-1], [0]], files={"in": t})
        for size in ((3,) if quick else (1, 2, 3, 7, 100)):
            rows = []
            p = 0
            while True:
                c = bs[p:p + size]
                rows.append([len(c)])
                rows += [[b] for b in c]
                p += len(c)
                if not c:
                    break
            if len(bs) > 400 and quick:
                continue
            yield "read of %d: %s" % (size, n), 'int main() { char *b = malloc(%d); int f = open("in", 0); int n = 1; int i; while (n > 0) { n = read(f, b, %d); obs(n); for (i = 0; i < n; i += 1) obs(b[i]); } close(f); return 0; }' % (size + 1, size), dict(rows=rows, files={"in": t})
    for n in ("no final newline", "blank lines", "backslashes", "spaces", "line of 16", "line of 257"):
        t = ts[n]
        bs = bytes_of(t)
        yield "read from the standard input: %s" % n, "int main() { char *b = malloc(700); int n = read(0, b, 2); int i; int m; obs(n, b[0], b[1]); m = read(0, b + 2, 600); obs(m); for (i = 0; i < n + m; i += 1) obs(b[i]); obs(read(0, b, 5)); return 0; }", \
            dict(rows=[[2, bs[0], bs[1]], [len(bs) - 2]] + [[b] for b in bs] + [[0]], stdin=t)
        k = min(3, len(bs))
        yield "read keeps the rest of the buffer: %s" % n, 'int main() { char *b = malloc(10); int f = open("in", 0); int i; for (i = 0; i < 10; i += 1) b[i] = 200 + i; obs(read(f, b + 2, %d)); for (i = 0; i < 10; i += 1) obs(b[i]); return 0; }' % k, \
            dict(rows=[[k]] + [[v] for v in [200, 201] + bs[:k] + [202 + k + i for i in range(8 - k)]], files={"in": t})
    a, b = ts["blank lines"], ts["backslashes"]
    rows = []
    for i in range(max(len(a), len(b)) + 1):
        rows.append([ord(a[i]) if i < len(a) else -1, ord(b[i]) if i < len(b) else -1])
    yield "two files in turn", 'int main() { char *f = fopen("a", "r"); char *g = fopen("b", "r"); int i; int x; int y; for (i = 0; i < %d; i += 1) { x = fgetc(f); y = fgetc(g); obs(x, y); } fclose(f); fclose(g); return 0; }' % len(rows), dict(rows=rows, files={"a": a, "b": b})
    rows = []
    for i in range(6):
        rows.append([ord("one\ntwo"[i]), ord("ONE\nTWO"[i]), ord("in\nput"[i])])
    yield "two files and the standard input", 'int main() { char *f = fopen("a", "r"); char *g = fopen("b", "r"); int i; int x; int y; int z; for (i = 0; i < 6; i += 1) { x = fgetc(f); y = fgetc(g); z = getchar(); obs(x, y, z); } return 0; }', \
        dict(rows=rows, files={"a": "one\ntwo", "b": "ONE\nTWO"}, stdin="in\nput")
    yield "same file twice", 'int main() { char *f = fopen("a", "r"); char *g = fopen("a", "r"); int x = fgetc(f); int y = fgetc(f); int z = fgetc(g); obs(x, y, z); fclose(f); obs(fgetc(g)); return 0; }', dict(rows=[[49, 50, 49], [50]], files={"a": "12\n3"})
    yield "file opened again", 'int main() { char *f = fopen("a", "r"); int x = fgetc(f); fclose(f); f = fopen("a", "r"); obs(x, fgetc(f)); obs(fgetc(f)); fclose(f); return 0; }', dict(rows=[[49, 49], [50]], files={"a": "12\n3"})
    yield "fgetc and read of one descriptor", 'int main() { char *f = fopen("a", "r"); char *b = malloc(5); int x = fgetc(f); int n = read(f[0], b, 3); obs(x, n, b[0], b[1], b[2]); obs(fgetc(f)); return 0; }', dict(rows=[[49, 3, 50, 10, 51], [52]], files={"a": "12\n34"})
    yield "long line between short ones", 'int main() { char *f = fopen("a", "r"); int c; int n = 0; int s = 0; while ((c = fgetc(f)) != -1) { n += 1; s += c * (n % 7); } obs(n, s); return 0; }', \
        (lambda t: dict(rows=[[len(t), sum(ord(c) * ((i + 1) % 7) for i, c in enumerate(t))]], files={"a": t}))("x\n" + "ab" * 700 + "\n\nq\n" + "cd" * 40)
    yield "memory around the buffers", 'int main() { int *p = malloc(2); char *f; int *q; int c; int n = 0; p[0] = 5; p[1] = 6; f = fopen("a", "r"); q = malloc(2); q[0] = 7; q[1] = 8; while ((c = fgetc(f)) != -1) n += c; fclose(f); obs(p[0], p[1], q[0], q[1], n); return 0; }', \
        dict(rows=[[5, 6, 7, 8, sum(map(ord, "k" * 1300 + "\nm\n"))]], files={"a": "k" * 1300 + "\nm\n"})


def jobs_files():
    opens = 'int main() { int a = open("x", 0); int b = open("y", 0); int c; int d; obs(a, b); obs(close(a)); c = open("z", 0); d = open("x", 0); obs(c, d); close(b); close(d); obs(open("y", 0), open("z", 0), open("x", 0)); return 0; }'
    yield "lowest free descriptor", opens, dict(rows=[[3, 4], [0], [3, 5], [4, 5, 6]], files={"x": "1", "y": "2", "z": "3"})
    yield "every descriptor", 'int main() { int i; int f; char *b = malloc(4); for (i = 3; i < 10; i += 1) { f = open("x", 0); obs(f); } for (i = 3; i < 10; i += 1) { obs(read(i, b, 2), b[0], b[1]); close(i); } obs(open("x", 0)); return 0; }', \
        dict(rows=[[i] for i in range(3, 10)] + [[2, 113, 10]] * 7 + [[3]], files={"x": "q\nr"})
    for i in range(7):
        pre = 'open("x", 0); ' * i
        yield "write to descriptor %d" % (3 + i), 'int main() { int f; char *b = malloc(4); %s f = open("o", 1); obs(write(f, "a\\nb", 3)); close(f); f = open("o", 0); obs(read(f, b, 4), b[0], b[1], b[2]); return 0; }' % pre, \
            dict(rows=[[3], [3, 97, 10, 98]], files={"x": ""}, outfiles={"o": "a\nb"})
        yield "append to descriptor %d" % (3 + i), 'int main() { int f; %s f = open("o", 2); write(f, "xy", 2); close(f); return 0; }' % pre, dict(files={"x": "", "o": "old\n"}, outfiles={"o": "old\nxy"})
        yield "truncate descriptor %d" % (3 + i), 'int main() { int f; %s f = open("o", 1); write(f, "xy", 2); close(f); return 0; }' % pre, dict(files={"x": "", "o": "old\n"}, outfiles={"o": "xy"})
    yield "fopen for writing", 'int main() { char *f = fopen("o", "w"); write(f[0], "hello", 4); obs(fclose(f)); f = fopen("o", "r"); obs(fgetc(f)); return 0; }', dict(rows=[[0], [104]], files={"o": "zzz"}, outfiles={"o": "hell"})
    yield "names of files", 'int main() { char *f = fopen("a b*\\"$x\\\\", "r"); obs(fgetc(f)); return 0; }', dict(rows=[[55]], files={'a b*"$x\\': "7"})
    yield "name held in memory", 'int main() { char *n = malloc(4); char *f; n[0] = 105; n[1] = 110; n[2] = 0; f = fopen(n, "r"); obs(fgetc(f)); return 0; }', dict(rows=[[56]], files={"in": "8"})


def jobs_output():
    allb = list(range(1, 256))
    for c in [allb[i:i + 32] for i in range(0, 255, 32)]:
        t = "".join(chr(b) for b in c)
        yield "putchar of %02x-%02x as a statement" % (c[0], c[-1]), "int main() { int i; for (i = %d; i <= %d; i += 1) putchar(i); return 0; }" % (c[0], c[-1]), dict(out=t)
        yield "printf %%s of %02x-%02x" % (c[0], c[-1]), 'int main() { char *s = %s; printf("<%%s>", s); return 0; }' % lit(c), dict(out="<" + t + ">")
        yield "printf %%c of %02x-%02x" % (c[0], c[-1]), 'int main() { int i; for (i = %d; i <= %d; i += 1) printf("%%c.", i); return 0; }' % (c[0], c[-1]), dict(out="".join(x + "." for x in t))
        yield "write of %02x-%02x" % (c[0], c[-1]), "int main() { char *s = %s; obs(write(1, s, %d)); return 0; }" % (lit(c), len(c)), dict(rows=[[len(c)]], out=t)
    for n in (0, 1, 5, 40):
        t = "".join(chr(65 + i % 26) for i in range(n))
        yield "write of %d" % n, 'int main() { char *s = "%s!!"; write(1, s, %d); write(2, s + 1, %d); return 0; }' % (t, n, n), dict(out=t, err=(t + "!!")[1:n + 1])
    yield "write order", 'int main() { putchar(97); write(1, "b", 1); printf("c%d", 1); putchar(100); write(1, "ef", 2); printf("%s", "g\\n"); return 0; }', dict(out="abc1defg\n")
    yield "write of a zero byte", 'int main() { char *s = malloc(3); s[0] = 97; s[1] = 0; s[2] = 98; write(1, s, 3); putchar(0); return 0; }', dict(out="a\0b\0")
    # copy
    for n in ("printable", "blank lines", "backslashes", "spaces", "controls", "globs", "no final newline", "high", "line of 257"):
        t = texts(True)[n]
        yield "copy: %s" % n, "int main() { int c; while ((c = getchar()) != -1) putchar(c); return 0; }", dict(out=t, stdin=t)
        yield "copy of a file: %s" % n, 'int main() { char *f = fopen("in", "r"); int o = open("out", 1); char *b = malloc(1); while ((b[0] = fgetc(f)) != -1) write(o, b, 1); close(o); fclose(f); return 0; }', dict(files={"in": t}, outfiles={"out": t})


def jobs_exit():
    for c in (0, 1, 2, 3, 7, 42, 127, 255):
        yield "exit(%d)" % c, "int main() { exit(%d); obs(1); return 0; }" % c, dict(status=c)
        yield "exit(%d) in a function" % c, "void f(int k) { if (k) { putchar(65); exit(k - 1); } obs(1); } int main() { f(0); f(%d); obs(2); return 9; }" % (c + 1), dict(rows=[[1]], out="A", status=c)
        yield "exit(%d) in a value" % c, "int f(int k) { exit(k); return 3; } int main() { int x = 1 + f(%d); obs(x); return 9; }" % c, dict(status=c)
        yield "return %d from main" % c, "int main() { return %d; }" % c, dict(status=c)
        yield "return %d from main in the middle" % c, "int main() { int i; for (i = 0; i < 5; i += 1) { obs(i); if (i == 2) return %d; } obs(9); return 3; }" % c, dict(rows=[[0], [1], [2]], status=c)
        yield "return the result of a call, %d" % c, "int f(int a) { return a + %d; } int main() { return f(0); }" % c, dict(status=c)
        yield "exit in a loop, %d" % c, "int main() { int i = 0; while (1) { i += 1; if (i == 4) exit(%d); obs(i); } return 0; }" % c, dict(rows=[[1], [2], [3]], status=c)
    yield "main without return", "int main() { obs(1); }", dict(rows=[[1]])
    yield "void main", "void main() { obs(1); }", dict(rows=[[1]])
    yield "void main returning early", "void main() { obs(1); if (1) return; obs(2); }", dict(rows=[[1]])
    yield "main after other functions", "int g = 2; int f() { return g; } int main() { g = 5; obs(f()); return g; } ", dict(rows=[[5]], status=5)
    yield "main before other functions", "int f(); int main() { obs(f()); return 4; } int f() { return 8; }", dict(rows=[[8]], status=4)


USES = {   # name -> (declaration, statement, output)
    "putchar": ("", "putchar(97);", "a"),
    "putchar value": ("", "x = putchar(98);", "b"),
    "getchar": ("", "x = getchar(); printf(\"%d\", x);", None),
    "malloc": ("", "p = malloc(2); p[1] = 5; printf(\"%d\", p[1]);", "5"),
    "free": ("", "q = malloc(1); q[0] = 4; free(q);", ""),
    "printf literal": ("", "printf(\"k%d\", 3);", "k3"),
    "printf string": ("", "printf(\"%s\", \"str\");", "str"),
    "printf dynamic": ("char *fm = \"<%d %s %c%%>\";", "printf(fm, 12, \"w\", 99);", "<12 w c%>"),
    "exit": ("void die(int k) { if (k) exit(k); }", "die(0);", ""),
    "fopen": ("", "f = fopen(\"in\", \"r\"); printf(\"%d\", f != 0);", "1"),
    "fclose": ("", "f = fopen(\"in\", \"r\"); fclose(f);", ""),
    "fgetc": ("", "f = fopen(\"in\", \"r\"); putchar(fgetc(f));", "I"),
    "open": ("", "d = open(\"in\", 0);", ""),
    "close": ("", "d = open(\"in\", 0); close(d);", ""),
    "read": ("", "r = malloc(3); d = open(\"in\", 0); read(d, r, 2); putchar(r[1]);", "n"),
    "read 0": ("", "r = malloc(3); read(0, r, 1);", ""),
    "write": ("", "write(1, \"wr\", 2);", "wr"),
    "array": ("int ar[3];", "ar[1] = 6; printf(\"%d\", ar[1]);", "6"),
    "initialised array": ("int ia[3] = {1, 2};", "printf(\"%d%d\", ia[1], ia[2]);", "20"),
    "string": ("char *st = \"S\";", "putchar(st[0]);", "S"),
    "local string": ("", "s = \"L\"; putchar(s[0]);", "L"),
    "character": ("", "x = 'c'; putchar(x);", "c"),
    "locals": ("int fl(int a, int b) { int c = a * b; a = c; return a + c; }", "printf(\"%d\", fl(2, 3));", "12"),
    "struct": ("struct st { int a; int b; };", "p = malloc(sizeof(struct st)); p[1] = 3;", ""),
}


def uses_program(names):
    decl = " ".join(USES[n][0] for n in names)
    body = " ".join(USES[n][1] for n in names)
    out = ""
    took = 0
    for n in names:
        o = USES[n][2]
        if o is None:
            o = str(ord("IN"[took]))
            took += 1
        out += o
    return "%s int main() { int x; int d; int *p; int *q; char *f; char *r; char *s; %s return 0; }" % (decl, body), dict(out=out, stdin="IN\n", files={"in": "In\n"})


def jobs_uses(quick):
    ns = list(USES)
    for a in ns:
        yield "uses %s" % a, *uses_program([a])
    for i, a in enumerate(ns):
        for b in ns[i + 1:]:
            if {a, b} == {"getchar", "read 0"}:
                continue
            yield "uses %s and %s" % (a, b), *uses_program([a, b])
            if not quick:
                yield "uses %s and %s" % (b, a), *uses_program([b, a])
    r = random.Random(3)
    for k in range(40 if quick else 400):
        c = r.sample(ns, r.randint(3, 8))
        if "read 0" in c and "getchar" in c:
            continue
        yield "uses %s" % ", ".join(c), *uses_program(c)
    yield "uses everything", *uses_program([n for n in ns if n != "read 0"])
    yield "uses main arguments and strings", 'int main(int argc, char **argv) { printf("%d%s", argc, argv[0]); putchar(getchar()); return 0; }', dict(out="1progI", stdin="IN")


# ------------------------------------------------------------------ printf with a format known at run time
def c_printf(fmt, args):
    out = ""
    i = 0
    args = list(args)
    while i < len(fmt):
        if fmt[i] != "%":
            out += fmt[i]
            i += 1
            continue
        j = i + 1
        while fmt[j] not in "%dciouxXs":
            j += 1
        spec = fmt[i + 1:j]
        c = fmt[j]
        i = j + 1
        if c == "%":
            out += "%"
            continue
        spec = spec.replace("l", "")
        while "*" in spec:
            spec = spec.replace("*", str(args.pop(0)), 1)
        v = args.pop(0)
        if c == "c":
            out += ("%" + spec + "s") % chr(v) if spec else chr(v)
        elif c == "s":
            out += ("%" + spec + "s") % v
        else:
            if c in "ouxX" and v < 0:
                v += 1 << 64
            if c == "o" and "#" in spec:
                out += ("%" + spec.replace("#", "") + "o") % v
            else:
                out += ("%" + spec + {"i": "d", "u": "d"}.get(c, c)) % v
    return out


def jobs_printf(quick):
    fs = []
    for c in "dixXou":
        for f in ("%" + c, "a%" + c + "b", "%5" + c, "%-5" + c + "|", "%05" + c, "%12" + c, "%.3" + c, "%8.4" + c, "%-8.4" + c + "|", "%*" + c, "%.*" + c, "%*.*" + c):
            n = f.count("*")
            fs.append((f, [6, 3][:n] if n != 1 else [4]))
    for f in ("%+d", "% d", "%+5d", "%-+6d|", "%#x", "%#6x"):
        fs.append((f, []))
    for f, pre in fs:
        for v in (0, 7, 42, 123456) if quick else (0, 1, 7, 42, 255, 99999, 123456, 2147483647):
            yield "%s of %d" % (f, v), f, pre + [v]
        if f[-1] in "di|" and "x" not in f and "X" not in f and "o" not in f and "u" not in f:
            yield "%s of -37" % f, f, pre + [-37]
    for f, a in (("", []), ("plain", []), ("%%", []), ("100%%!\n", []), ("%c", [65]), ("%c%c", [97, 10]), ("a%cb", [37]), ("%s", ["hello"]), ("[%s]", [""]), ("%s-%s", ["x", "yz"]), ("%10s|", ["abc"]), ("%-10s|", ["abc"]),
                 ("%.2s|", ["abcdef"]), ("%5.1s|", ["abc"]), ("%*s|", [6, "ab"]), ("%.*s|", [1, "ab"]), ("%-*s|", [6, "ab"]), ("%d %s %c %x", [1, "two", 51, 4]), ("%s%d%s", ["a", 2, "b"]), ("\t%d\n%s\n", [5, "q"]),
                 ("\\n%d", [3]), ("'%d'", [3]), ("$%d `", [3]), ("\"%s\"", ["q\"q"]), ("%s", ["$HOME `x` \\n * ?"]), ("%s|", ["-n"]), ("-%d", [4]), ("%d", [-5]), ("%c%d%c", [40, 12, 41]), ("%5d%-5d|%05d", [1, 2, 3]),
                 ("%s|%5s|%s", ["ab", "cd", "ef"]), ("%3c|", [65]), ("%d%%", [50]), ("%s", ["ends in a newline\n"]), ("%6s|", ["line\n"])):
        yield "%r of %s" % (f, a), f, a


def run(rep):
    rep.rule("input", "getchar, fgetc and read give every byte of a text, in order, then the end; for texts around every chunk and buffer size")
    rep.rule("file", "open, fopen, close, fclose: descriptors, truncation, appending, reopening, for every descriptor")
    rep.rule("output", "putchar, write, %s and %c print every byte")
    rep.rule("exit", "exit and main's result become the exit status, and end the program there")
    rep.rule("closure", "for programs using any one or two features: everything the emitted program calls is defined when it is called")
    rep.rule("printf", "printf with a format that is not known at compile time")
    rep.trusted += ["shell semantics lib/shsem.py and lib/shtext.py (read -r, exec redirections, printf, parameter expansion)"]
    rep.assumptions += ["texts contain no zero byte", "files opened for reading exist", "at most 10 descriptors", "open's flags are 0, 1 and 2 as in the runtime"]
    quick = rep.tier != "thorough"
    tasks = []
    for cfg in (["sh", "sh-fast"] if quick else ["sh", "sh-fast", "sh-release", "sh-safe", "sh-init", "sh-compact", "sh-inline", "sh-noprintf"]):
        d = Runtime(cfg)
        rep.use(d.base.u, FUNCS)
        jobs = [("input", k, s, a) for k, s, a in jobs_input(quick)]
        jobs += [("file", k, s, a) for k, s, a in jobs_files()]
        jobs += [("output", k, s, a) for k, s, a in jobs_output()]
        jobs += [("exit", k, s, a) for k, s, a in jobs_exit()]
        jobs += [("closure", k, s, a) for k, s, a in jobs_uses(quick)]
        for k, f, a in jobs_printf(quick):
            decls = "char *f = %s;" % lit([ord(c) for c in f])
            ops = "".join(", " + (str(v) if isinstance(v, int) else lit([ord(c) for c in v])) for v in a)
            jobs.append(("printf", "printf " + k, "int main() { %s printf(f%s); return 0; }" % (decls, ops), dict(out=c_printf(f, a))))
        n = 32
        for i in range(n):
            tasks.append(("%s/%d" % (cfg, i), lambda r, d=d, js=jobs[i::n]: [d.go(r, j[0], j[1], j[2], **j[3]) for j in js]))
    rep.parallel(tasks)
    for k, m in (("input", 80), ("file", 20), ("output", 40), ("exit", 50), ("closure", 250), ("printf", 250)):
        rep.expect(k, m)
