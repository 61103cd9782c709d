"""Shell back end: printf, putchar, putstr and exit print and do what C says."""
import itertools, random
from shsem import arith, ShellSyntax, Unsupported, Leave
from absint import is_int
from shcheck import Case, check
from sh_exprs import Suite as Base, has

CONFIGS = ["sh"]
THOROUGH = ["sh", "sh-release", "sh-safe"]
CONV = "dioxuX"
PCT = "\ue025"       # a % written as an octal escape
ESC = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", "\\": "\\", '"': '"'}


def number_item(w, flags, width, prec, conv, val):
    """What one conversion prints; star operands that are constants are the same as literal numbers."""
    w.event("out", "%%%s%s%s%s" % ("".join(sorted(set(flags))), "" if width is None else "w", "" if prec is None else ".", "d" if conv == "i" else conv),
            width if width is not None else 0, prec if prec is not None else 0, val)


def text_out(w, s):
    for c in s:
        w.event("out", c)


def char_out(w, v):
    if is_int(v):
        w.event("out", chr(v & 255))
    else:
        w.event("out", "%c", v)


class Fmt:
    """Scanner of a format: yields ("lit", char) and ("conv", flags, width, prec, modifiers, conv); width/prec are None, int or "*"."""

    def __init__(self, s, bad):
        self.items = []
        i, n = 0, len(s)
        while i < n:
            c = s[i]
            if c != "%":
                self.items.append(("lit", c))
                i += 1
                continue
            i += 1
            flags = ""
            while i < n and s[i] in " #+-0":
                flags += s[i]
                i += 1
            width = prec = None
            if i < n and s[i] == "*":
                width = "*"
                i += 1
            elif i < n and s[i].isdigit():
                j = i
                while i < n and s[i].isdigit():
                    i += 1
                width = int(s[j:i])
            if i < n and s[i] == ".":
                i += 1
                prec = 0
                if i < n and s[i] == "*":
                    prec = "*"
                    i += 1
                else:
                    j = i
                    while i < n and s[i].isdigit():
                        i += 1
                    prec = int(s[j:i] or "0")
            mods = ""
            while i < n and s[i] in "lhzjtL":
                mods += s[i]
                i += 1
            if i >= n:
                bad("an incomplete conversion")
                return
            if s[i] == "%":
                if flags or width is not None or prec is not None or mods:
                    bad("%% with modifiers")
                self.items.append(("lit", "%"))
            else:
                self.items.append(("conv", flags, width, prec, mods, s[i]))
            i += 1


def unescape(s):
    """Escapes of the format operand of the shell's printf."""
    out, i = "", 0
    pct = []
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c
            i += 1
            continue
        i += 1
        if i >= len(s):
            raise ShellSyntax("a printf format ends with a backslash")
        c = s[i]
        if c in "01234567":
            j = i
            while i < len(s) and i - j < 3 and s[i] in "01234567":
                i += 1
            ch = chr(int(s[j:i], 8) & 255)
            out += PCT if ch == "%" else ch
        elif c in ESC:
            out += ESC[c]
            i += 1
        else:
            raise ShellSyntax("unspecified escape \\%s in a printf format" % c)
    return out


def sh_printf(x, args, redirs):
    if redirs:
        raise Unsupported("redirected printf")
    args = list(args)
    if args and args[0] == ["--"]:
        args.pop(0)
    elif args and args[0] != ["-"] and args[0] and isinstance(args[0][0], str) and args[0][0].startswith("-"):
        raise ShellSyntax("printf takes its format %r for an option" % (args[0][0],))
    if not args:
        raise ShellSyntax("printf without a format")
    f = args.pop(0)
    if len(f) == 4 and f[0] == "\\" and all(isinstance(p, tuple) and p[0] == "d" for p in f[1:]):
        t = [p[1] for p in f[1:]]
        e = t[0][2] if t[0][:2] == ("o", "/") else None
        if e is None or t[0] != arith("/", e, 64) or t[1] != arith("%", arith("/", e, 8), 8) or t[2] != arith("%", e, 8):
            raise ShellSyntax("the octal digits of a character are not those of one value")
        char_out(x.w, e)
        return True
    if any(not isinstance(p, str) for p in f):
        raise ShellSyntax("the format of printf depends on a value")
    s = unescape(f[0] if f else "")

    def bad(m):
        raise ShellSyntax("shell printf with " + m)
    items = Fmt(s, bad).items
    first = True
    while first or args:
        if not first and not any(i[0] == "conv" for i in items):
            break                # excess arguments and no conversion: printed once
        first = False
        for it in items:
            if it[0] == "lit":
                x.w.event("out", "%" if it[1] == PCT else it[1])
                continue
            _, flags, width, prec, mods, conv = it
            if mods:
                bad("the modifier %s, unknown to POSIX" % mods)

            def take():
                if not args:
                    return 0
                v = x.value(args.pop(0))
                return v
            if width == "*":
                width = take()
            if prec == "*":
                prec = take()
            v = take()
            if conv in CONV:
                for z in (width, prec, v):
                    if isinstance(z, tuple) and z[0] in ("s", "mix", "ref"):
                        raise ShellSyntax("a numeric operand of printf is the text %r" % (z,))
                number_item(x.w, flags, width, prec, conv, v)
            elif conv == "s":
                if isinstance(v, tuple) and v[:2] == ("o", "pstr"):
                    number_item(x.w, flags, width, prec, "s", v[2])
                else:
                    bad("%%s of %r" % (v,))
            else:
                bad("%%%s" % conv)
    return True


def c_format(w, fmt, vs):
    """What C's printf prints."""
    vs = list(vs)

    def bad(m):
        raise AssertionError(m)
    for it in Fmt(fmt, bad).items:
        if it[0] == "lit":
            w.event("out", it[1])
            continue
        _, flags, width, prec, mods, conv = it
        if width == "*":
            width = vs.pop(0)
        if prec == "*":
            prec = vs.pop(0)
        v = vs.pop(0)
        if conv == "c":
            char_out(w, v)
        elif conv == "s" and width is None and prec is None:
            w.event("out", "%s", v)
        else:
            number_item(w, flags, width, prec, conv, v)


class Suite(Base):
    def __init__(self, cfg):
        super().__init__(cfg)
        g = self.base
        for n in ("printf", "putchar", "putstr", "puts", "exit"):
            g.probe(n)
        g.clear()
        self.sh = {"defstr": self.defstr, "printf": sh_printf, "_put_pstr": self.put_pstr, "_putchar": self.putchar,
                   "_printf": self.rt_printf, "$(": self.subst, "_exit": self.rt_exit}
        self.c = {"printf": self.c_printf, "putchar": self.c_putchar, "putstr": self.c_putstr, "exit": self.c_exit}
        # constants of all characters, as the epilogue defines them
        from shsem import parse
        text = ""
        for c in range(128):
            h = g.fork()
            h.clear()
            try:
                h.call("print_text", h.call("character_ident", c))
            except Exception:
                continue
            text += "readonly %s=%d\n" % (h.text(), c)
        self.prelude = [x for x in self.prelude if True]
        seen = set()
        for line in text.split("\n"):
            n = line.split("=")[0]
            if n and n not in seen and n.split()[-1] not in ("__NUL__", "__A__"):
                seen.add(n)
                self.prelude += parse(line + "\n")

    def defstr(self, x, args, redirs):
        """A string literal, with the escapes of the text undone."""
        t = x.value(args[1])
        t = str(t) if isinstance(t, int) else t[1]
        x.w.vars[x.dest(args[0])] = ("v", "str:" + unescape(t))
        return True

    def put_pstr(self, x, args, redirs):
        x.dest(args[0])
        x.w.event("out", "%s", x.value(args[1]))
        return True

    def putchar(self, x, args, redirs):
        x.dest(args[0])
        char_out(x.w, x.value(args[1]))
        return True

    def subst(self, x, prog):
        """$(_put_pstr __ p): the text of the string at p."""
        if len(prog) != 1:
            raise Unsupported("command substitution")
        c = prog[0]
        while isinstance(c, (tuple, list)) and c and c[0] != "simple":
            c = c[1] if len(c) > 1 else None
            if isinstance(c, list):
                c = c[0]
        if not c or c[1] or c[3]:
            raise Unsupported("command substitution")
        fs = []
        for w in c[2]:
            fs.extend(x.pieces(w))
        if len(fs) != 3 or fs[0] != ["_put_pstr"]:
            raise Unsupported("command substitution")
        return ("o", "pstr", x.value(fs[2]))

    def rt_printf(self, x, args, redirs):
        d = x.dest(args[0])
        f = x.value(args[1])
        if not (isinstance(f, tuple) and f[0] == "v" and f[1].startswith("str:")):
            raise ShellSyntax("the format of _printf is %r" % (f,))
        c_format(x.w, f[1][4:], [x.value(a) for a in args[2:]])
        if d != ("__", None):
            x.w.write(d, ("v", "printed"))
        return True

    def rt_exit(self, x, args, redirs):
        x.w.event("exit", x.value(args[1]) if len(args) > 1 else 0, x.w.snap())
        raise Leave("exit")

    def c_printf(self, c, vs, e):
        c_format(c.w, e[2][0][1], vs[1:])
        return ("v", "printed")

    def c_putchar(self, c, vs, e):
        char_out(c.w, vs[0])
        return vs[0]

    def c_putstr(self, c, vs, e):
        text_out(c.w, e[2][0][1])
        return 0

    def c_exit(self, c, vs, e):
        c.w.event("exit", vs[0], c.w.snap())
        raise Leave("exit")

    def out(self, rep, rule, key, body, must=True):
        from sh_exprs import used, PARAMS
        us = [p for p in PARAMS if p in used(body, set())]
        case = Case("%s [%s]" % (key, self.cfg), us, body, ["?g", "?k"], must=must)
        check(rep, rule, case, self.cfg, self.base, budget=6, prelude=self.prelude, sh_intr=self.sh, c_intr=self.c,
              deferred="late call: " + key)


A, B, C = ("id", "?a"), ("id", "?b"), ("id", "?c")
VARS = ["?a", "?b", "?c", "?d", "?e", "?i", "?s", "?t"]


def pf(fmt, *args):
    return ("expr", ("call", "printf", [("str", fmt)] + list(args)))


def operands(fmt, start=0, fancy=None):
    """Distinct operands for the conversions of fmt; `fancy` gives the k-th one a special expression."""
    out = []
    k = start
    for it in Fmt(fmt, lambda m: None).items:
        if it[0] != "conv":
            continue
        for z in (it[2], it[3]):
            if z == "*":
                out.append(("id", VARS[k % 8]))
                k += 1
        e = ("id", VARS[k % 8])
        if fancy and len(out) in fancy:
            e = fancy[len(out)]
        out.append(e)
        k += 1
    return out


def show_fmt(f):
    return repr(f)[1:-1]


EXPRS = {
    "int": ("num", 42), "neg": ("num", -3), "hex": ("hex", 0x1f), "sum": ("bin", "+", A, B), "shift": ("bin", "<<", A, B), "or": ("bin", "|", A, ("num", 1)),
    "cmp": ("bin", "<", A, B), "cond": ("cond", A, B, C), "deref": ("deref", A), "index": ("idx", A, B), "global": ("glo", "?g"),
    "post": ("post", "+", A), "pre": ("pre", "-", A), "asg": ("asg", "", A, B), "asg+": ("asg", "+", A, B), "comma": ("bin", ",", A, B), "not": ("un", "!", A),
    "minus": ("un", "-", A), "compl": ("un", "~", A), "cast": ("cast", ("bin", "+", A, B)), "paren": ("paren", ("bin", "%", A, B)), "and": ("and", A, B),
    "call": ("call", "?h", [A]), "call+1": ("bin", "+", ("call", "?h", [A]), ("num", 1)), "chr": ("chr", 65), "oct": ("oct", 0o101),
    "mod asg": ("asg", "", ("deref", B), ("post", "+", A)), "xor": ("bin", "^", A, B), "arrow": ("arrow", A, "?m1", 1),
}


def jobs_literals():
    printable = [chr(c) for c in range(32, 127)]
    ctl = ["\a", "\b", "\f", "\n", "\r", "\t", "\v"]
    for c in printable + ctl:
        f = "%%" if c == "%" else c
        yield "printf literal %r" % c, [pf(f)]
        yield "printf literal %r with a number" % c, [pf(f + "%d" + f, A)]
        yield "printf literal %r after a string" % c, [pf("%s" + f + "%s" + f + "%d", A, B, C)]
        yield "printf literal %r after a character" % c, [pf("%c" + f + "%c", A, B)]
        yield "putstr literal %r" % c, [("expr", ("call", "putstr", [("str", c)]))]
        yield "putchar constant %r" % c, [("expr", ("call", "putchar", [("chr", ord(c))]))]
        yield "%%c constant %r" % c, [pf("%c", ("chr", ord(c)))]
        yield "%%c constant %r between" % c, [pf("%d%c%d", A, ("chr", ord(c)), B)]
    yield "putchar constant 0", [("expr", ("call", "putchar", [("chr", 0)]))]
    yield "printf empty", [pf("")]
    special = ["\\", '"', "$", "`", "%%", "'", "-", "\n", "\t", "n", "0", "{", "(", "!", "a", "*", "?", "#", " ", "\a"]
    for x in special:
        s = "".join(x + y for y in special)
        yield "printf pairs %r" % x, [pf(s)]
        yield "printf pairs %r with a number" % x, [pf(s + "%d", A)]
        yield "putstr pairs %r" % x, [("expr", ("call", "putstr", [("str", s.replace("%%", "%"))]))]
    for n in list(range(0, 256)):
        if n in (9, 10, 13, 31, 32, 33, 34, 36, 37, 39, 45, 48, 64, 65, 92, 96, 97, 126, 127, 128, 200, 255, 7, 8, 63, 0, 1):
            yield "putchar %d" % n, [("expr", ("call", "putchar", [("num", n)]))]


def jobs_conversions():
    flags = [""] + list("-+ #0") + [a + b for a, b in itertools.combinations("-+ #0", 2)]
    for conv in CONV + "s":
        for fl in flags:
            if conv == "s" and set(fl) - set("-"):
                continue
            for width in ("", "5", "12", "*"):
                for prec in ("", ".3", ".*", ".0", ".10"):
                    f = "%" + fl + width + prec + conv
                    yield "conversion %s" % f, [pf("<" + f + ">", *operands(f))]
        for f in ("%" + conv, "%5" + conv, "%*" + conv, "%-.2" + conv):
            for a in ("%d", "%s", "%c", "%6s", "%.*d"):
                g = a + f + "%d" + f
                yield "conversion %s after %s" % (f, a), [pf(g, *operands(g))]
    for conv in CONV:
        for m in ("l", "ll"):
            for f in ("%" + m + conv, "%4" + m + conv + "|%d", "a%d%s%" + m + conv + "b"):
                yield "conversion %s" % f, [pf(f, *operands(f))]


def jobs_sequences(n3):
    items = ["-", "x", "%%", "%d", "%c", "%s", "%5s", "%*d", "%-4x"]
    for a in items:
        for b in items:
            f = a + b
            yield "sequence %s" % f, [pf(f, *operands(f))]
    for a, b, c in n3(list(itertools.product(items, repeat=3))):
        f = a + b + c
        yield "sequence %s" % f, [pf(f, *operands(f))]


def jobs_operands():
    for n, e in EXPRS.items():
        for f in ("%d", "%c", "%s", "%5s", "<%x>%s", "%s%d", "%*d", "%.*s", "%c%d"):
            cnt = len(operands(f))
            for k in range(cnt):
                if n == "neg" and "%c" in f:
                    continue
                vs = [e if i == k else ("id", VARS[4 + i]) for i in range(cnt)]
                yield "operand %s of %s.%d" % (n, f, k), [pf(f, *vs), ("return", A)]
        if n != "neg":
            yield "putchar of %s" % n, [("expr", ("call", "putchar", [e])), ("return", A)]
        yield "exit of %s" % n, [("expr", ("call", "exit", [e]))]
        yield "printf in if %s" % n, [("if", e, pf("yes%d", C), pf("no"))]
        yield "exit in if %s" % n, [("if", e, ("expr", ("call", "exit", [("num", 3)])), None), ("expr", ("call", "?h", [("num", 1)]))]
    yield "printf value", [("return", ("call", "printf", [("str", "a%d%%$\\"), A]))]
    yield "printf value 2", [("expr", ("asg", "", B, ("call", "printf", [("str", "%c%s"), A, C]))), ("return", B)]
    for f in ("%d", "%c", "a%c%d", "%s", "%s%d", "%d%s%d", "%c%c", "%5s%d", "%d%d"):
        cnt = len(operands(f))
        vs = [("call", "?h", [("num", i)]) for i in range(cnt)]
        yield "calls as operands of %s" % f, [pf(f, *vs)]
        yield "calls in the operands of %s" % f, [pf("x" + f, *[("bin", "+", v, ("num", 1)) for v in vs])]


def jobs_rejected():
    """Formats that must be rejected or translated right, never translated wrong."""
    for f in ("%f", "%e", "%g", "%p", "%q", "%5c", "%-3c", "%*c", "%hd", "%zd", "%lc", "%.2.3d", "%ls"):
        yield "unsupported %s" % f, [pf("a" + f, A, B)]
    for f in ("%d%d", "%*d", "%s%c", "%c%d", "%5s%d"):
        n = len(operands(f))
        yield "missing operand of %s" % f, [pf(f, *[("id", v) for v in VARS[:n - 1]])]


def run(rep):
    rep.rule("literal", "every character, and pairs of the special ones, printed by printf, putstr, putchar and %c")
    rep.rule("conversion", "every conversion with every flags, width and precision form, in different positions")
    rep.rule("sequence", "sequences of literals and conversions")
    rep.rule("operand", "every kind of expression as operand of every kind of conversion, of putchar and of exit")
    rep.rule("unsupported", "formats outside the subset are rejected")
    rep.trusted += ["shell semantics lib/shsem.py", "POSIX printf(1) model in checks/sh_printf.py"]
    rep.assumptions += ["characters are 0..255", "a string printed with a width or precision does not end with a newline (command substitution)",
                        "shell integers are wide enough for the printed values"]
    quick = rep.tier != "thorough"
    tasks = []
    for cfg in CONFIGS if quick else THOROUGH:
        s = Suite(cfg)
        rep.use(s.base.u, ["handle_printf_call", "printf_call", "comp_putchar_inline", "comp_fun_call_code", "print_escaped_char", "print_escaped_string", "escape_text", "character_ident"])
        r = random.Random(rep.seed)
        jobs = [("literal", k, b, True) for k, b in jobs_literals()]
        jobs += [("conversion", k, b, True) for k, b in jobs_conversions()]
        jobs += [("sequence", k, b, True) for k, b in jobs_sequences(lambda l: r.sample(l, 300) if quick else l)]
        jobs += [("operand", k, b, True) for k, b in jobs_operands()]
        N = 24
        for i in range(N):
            tasks.append(("%s/%d" % (cfg, i), lambda r, s=s, js=jobs[i::N]: [s.out(r, *j) for j in js]))
        tasks.append(("rejected", lambda r, s=s: [rejected(s, r, k, b) for k, b in jobs_rejected()]))
    rep.parallel(tasks)
    for r, n in (("literal", 500), ("conversion", 400), ("sequence", 100), ("operand", 300), ("unsupported", 10)):
        rep.expect(r, n)


def rejected(s, rep, key, body):
    from shcheck import emit, squeeze
    from shgen import Rejected
    from sh_exprs import used, PARAMS
    us = [p for p in PARAMS if p in used(body, set())]
    case = Case(key, us, body, ["?g", "?k"])
    try:
        text, g = emit(case, s.cfg, s.base)
    except Rejected as r:
        return rep.ob("unsupported", True, key, "sh.c: " + key, "", r.message)
    rep.ob("unsupported", False, "%s [%s]" % (key, s.cfg), "sh.c [%s]: %s" % (s.cfg, key), "accepted: " + squeeze(text, g))
