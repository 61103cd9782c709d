"""Whole shell programs: emission from a token schema of a complete C file, and evaluation of the emitted text
including the runtime library, with text operations (parameter trimming, patterns, printf, read, files)."""
from frontend import Broken
from absint import is_int
from shgen import ShGen, Rejected
from shsem import (Exec, World, Oracle, Leave, Cutoff, ShellSyntax, Unsupported, Lexer, Arith, parse, split_name,
                   is_name_start, is_name_char, merge, is_dec, NUMCH)
from front import NAMES, SINGLE, opcode

ESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "0": 0, "\\": 92, "'": 39, '"': 34, "?": 63}


class ShFile(ShGen):
    """The shell program emitted for a complete source file."""

    def __init__(self, cfg="sh"):
        ShGen.__init__(self, cfg)
        self.it = self.interp()
        self.toks = []

    def interp(self):
        it = ShGen.interp(self)
        it.h["get_tok"] = lambda it, st, args, node: self.h_get_tok(st)
        return it

    def fork(self):
        g = ShGen.fork(self)
        g.it = g.interp()
        return g

    def scan(self, text):
        """Token schema; a string literal is written "..." with C escapes, an unknown number is $k."""
        out = []
        i = 0
        ops = sorted(list(NAMES) + list(SINGLE), key=len, reverse=True)
        n = len(text)

        def char(i):
            if text[i] != "\\":
                return ord(text[i]), i + 1
            c = text[i + 1]
            if c == "x":
                return int(text[i + 2:i + 4], 16), i + 4
            return ESC[c], i + 2
        while i < n:
            c = text[i]
            if c.isspace():
                i += 1
            elif c == '"':
                cs = []
                i += 1
                while text[i] != '"':
                    k, i = char(i)
                    cs.append(k)
                i += 1
                out.append((self.op("STRING"), self.intern(cs)))
            elif c == "'":
                k, i = char(i + 1)
                i += 1
                out.append((self.op("CHARACTER"), k))
            elif c == "$":
                out.append((self.op("INTEGER"), ("lin", 0, ((("v", "num.%d" % int(text[i + 1])), -1),))))
                i += 2
            elif c.isdigit():
                j = i
                while j < n and text[j].isalnum():
                    j += 1
                t = text[i:j].lower()
                suf = ""
                while t[-1] in "ul" and not (t.startswith("0x") and False):
                    suf = t[-1] + suf
                    t = t[:-1]
                op = "INTEGER"
                if suf:
                    op = {"u": "INTEGER_U", "l": "INTEGER_L", "ul": "INTEGER_UL", "ll": "INTEGER_LL", "ull": "INTEGER_ULL"}[suf]
                    if op not in self.u.consts:
                        op = "INTEGER"
                elif t.startswith("0x"):
                    op = "INTEGER_HEX"
                elif t[0] == "0" and len(t) > 1:
                    op = "INTEGER_OCT"
                v = int(t, 16) if t.startswith("0x") else int(t, 8) if t[0] == "0" else int(t)
                out.append((self.op(op), -v))
                i = j
            elif c.isalpha() or c == "_":
                j = i
                while j < n and (text[j].isalnum() or text[j] == "_"):
                    j += 1
                out.append(("id", self.probe(text[i:j])))
                i = j
            else:
                for o in ops:
                    if text.startswith(o, i):
                        out.append((opcode(self.u, o), None))
                        i += len(o)
                        break
                else:
                    raise Broken("schema token at %r" % text[i:])
        return out

    def h_get_tok(self, st):
        p = st.g.get("$pos", 0)
        if p < len(self.toks):
            t, v = self.toks[p]
            if t == "id":
                t = st.mem.get(("m", ("lin", v + 2, ((("arr", "heap"), 1),))))
                if t is None:
                    from absint import t_add
                    t = st.mem[("m", t_add(("arr", "heap"), v + 2))]
            st.g["tok"] = t
            st.g["val"] = v if v is not None else 0
        else:
            st.g["tok"] = -1
            if p > len(self.toks) + 1000:
                raise Broken("the parser does not stop at the end of the schema")
        st.g["$pos"] = p + 1
        return [(None, st)]

    def num_text(self, t):
        """Text of an unknown integer: a placeholder the shell reader knows."""
        from absint import lin_parts
        c, d = lin_parts(t)
        if c == 0 and len(d) == 1:
            (a, k), = d.items() if isinstance(d, dict) else d
            if a[0] == "v" and a[1].startswith("num.") and k in (1, -1):
                return ("-" if k < 0 else "") + chr(0xAC00 + int(a[1][4:]))
        raise Broken("an unknown integer %r is printed" % (t,))

    def program(self, text):
        """Shell text of the program; raises Rejected."""
        self.clear()
        self.toks = self.scan(text)
        self.st.g["$pos"] = 0
        self.h_get_tok(self.st)
        while self.st.g["tok"] != -1:
            d = self.call("parse_declaration", 0)
            self.call("codegen_glo_decl", d)
        self.call("codegen_end")
        return self.text()


# ------------------------------------------------------------------ evaluation
class TextWorld(World):
    """Concrete memory cells; console and files."""

    def __init__(self, oracle, files=None, stdin="", schar=True):
        World.__init__(self, oracle)
        self.mem = {}
        self.nounset = False
        self.files = dict(files or {})
        self.fds = {0: [stdin, 0]}       # readable
        self.outs = {1: "stdout", 2: "stderr"}
        self.out = {"stdout": [], "stderr": []}
        self.capture = []
        self.schar = schar

    def read(self, key):
        p, i = key
        if p == "_" and i is not None:
            if not is_int(i):
                raise Unsupported("a memory cell with an unknown address")
            if i < 0:
                raise ShellSyntax("a variable name contains the negative number %d" % i)
            if i in self.mem:
                return self.mem[i]
        elif key in self.vars:
            return self.vars[key]
        if self.nounset:
            self.event("unset", key)
        return 0

    def write(self, key, val):
        p, i = key
        if key in self.readonly:
            self.event("write to readonly", key)
            return
        if p == "_" and i is not None:
            if not is_int(i):
                raise Unsupported("a memory cell with an unknown address")
            if i < 0:
                raise ShellSyntax("a variable name contains the negative number %d" % i)
            self.mem[i] = val
            return
        self.vars[key] = val

    def put(self, fd, piece):
        if fd == 1 and self.capture:
            self.capture[-1].append(piece)
            return
        if fd not in self.outs:
            self.event("output to a closed descriptor", fd)
            return
        self.out[self.outs[fd]].append(piece)

    def text_of(self, name):
        ps = merge(self.out.get(name, []))
        return ps[0] if len(ps) == 1 and isinstance(ps[0], str) else "" if not ps else ps


def glob(parts_pat, s, shortest=True, prefix=False, suffix=False):
    """Match of a pattern (list of tokens) against the text s; with prefix/suffix the length of the matched part or None."""
    def m(i, j):
        if i == len(parts_pat):
            return {j}
        t = parts_pat[i]
        if t == "*":
            r = set()
            for k in range(j, len(s) + 1):
                r |= m(i + 1, k)
            return r
        if j >= len(s):
            return set()
        if t == "?" or (t[0] == "lit" and t[1] == s[j]) or (t[0] == "set" and (s[j] in t[1]) != t[2]):
            return m(i + 1, j + 1)
        return set()
    if "*" not in parts_pat:
        n = len(parts_pat)
        if suffix:
            k = len(s) - n
            ok = k >= 0 and all(t == "?" or (t[0] == "lit" and t[1] == c) or (t[0] == "set" and (c in t[1]) != t[2]) for t, c in zip(parts_pat, s[k:]))
            return k if ok else None
        ok = len(s) >= n and (prefix or len(s) == n) and all(t == "?" or (t[0] == "lit" and t[1] == c) or (t[0] == "set" and (c in t[1]) != t[2]) for t, c in zip(parts_pat, s))
        return n if ok else None
    if suffix:
        cs = [k for k in range(len(s) + 1) if len(s) in m(0, k)]
        return (max(cs) if shortest else min(cs)) if cs else None
    e = m(0, 0)
    if prefix:
        return (min(e) if shortest else max(e)) if e else None
    return len(s) if len(s) in e else None


CLASSES = {"alnum": lambda c: c.isalnum() and ord(c) < 128, "alpha": lambda c: c.isalpha() and ord(c) < 128, "digit": lambda c: c in "0123456789",
           "upper": lambda c: "A" <= c <= "Z", "lower": lambda c: "a" <= c <= "z", "space": lambda c: c in " \t\n\r\f\v"}


class TextExec(Exec):
    """Text-level shell evaluation (concrete texts, numbers may be unknown)."""

    def __init__(self, w, args=(), name="prog", **kw):
        Exec.__init__(self, w, steps=kw.pop("steps", 2000000), **kw)
        self.args = [self.as_value(a) for a in args]
        self.script = name

    @staticmethod
    def as_value(t):
        return int(t) if is_dec(t) and t != "-0" else ("s", t)

    # ---- texts
    def plain(self, v, what="a text operation"):
        if v is None:
            return None
        if is_int(v):
            return str(v)
        if v[0] == "s":
            return v[1]
        if v[0] == "ref":
            k = v[1]
            if is_int(k[1]) or k[1] is None:
                return k[0] + ("" if k[1] is None else str(k[1]))
        raise Unsupported("%s on %r" % (what, v))

    def pattern(self, parts):
        out = []
        for p in parts:
            if p[0] == "lit":
                s = p[1]
                i = 0
                while i < len(s):
                    c = s[i]
                    if c == "*" or c == "?":
                        out.append(c)
                    elif c == "[" and "]" in s[i + 2:]:
                        j = i + 1
                        neg = s[j] in "!^"
                        if neg:
                            j += 1
                        ms = set()
                        first = True
                        while s[j] != "]" or first:
                            first = False
                            if s.startswith("[:", j):
                                e = s.index(":]", j)
                                ms |= {chr(k) for k in range(1, 256) if CLASSES[s[j + 2:e]](chr(k))}
                                j = e + 2
                            elif j + 2 < len(s) and s[j + 1] == "-" and s[j + 2] != "]":
                                ms |= {chr(k) for k in range(ord(s[j]), ord(s[j + 2]) + 1)}
                                j += 3
                            else:
                                ms.add(s[j])
                                j += 1
                        out.append(("set", ms, neg))
                        i = j
                    else:
                        out.append(("lit", c))
                    i += 1
            elif p[0] in ("sq", "esc"):
                out += [("lit", c) for c in p[1]]
            elif p[0] == "dq":
                f = self.pieces(p[1], True)
                out += [("lit", c) for c in self.plain(self.value(f[0] if f else []))]
            else:
                f = self.pieces([p], True)
                t = self.plain(self.value(f[0] if f else []))
                out += self.pattern([("lit", t)])
        return out

    def param(self, name, mod, quoted):
        if name == "0":
            v = ("s", self.script)
            if mod is None:
                return v
        if mod is None:
            if name.isdigit() and int(name) > len(self.args):
                if self.w.nounset:
                    self.w.event("unset", name)
                return ("s", "")
            if name == "@" or name == "#" or name.isdigit():
                return Exec.param(self, name, mod, quoted)
            key = split_name(name)
            return self.w.read(key)
        if mod[0] in ("-", ":-"):
            if not name.isdigit():
                key = split_name(name)
                v = self.w.vars.get(key)
                if key[0] == "_" and key[1] is not None:
                    v = self.w.mem.get(key[1])
                if v is None or (mod[0] == ":-" and v == ("s", "")):
                    f = self.pieces(mod[1], True)
                    return self.value(f[0] if f else [])
                return v
            return Exec.param(self, name, mod, quoted)
        v = self.param(name, None, quoted)
        t = self.plain(v)
        if mod[0] == "len":
            return len(t)
        if mod[0] in ("#", "##"):
            k = glob(self.pattern(mod[1]), t, mod[0] == "#", prefix=True)
            return self.retext(t if k is None else t[k:])
        if mod[0] in ("%", "%%"):
            k = glob(self.pattern(mod[1]), t, mod[0] == "%", suffix=True)
            return self.retext(t if k is None else t[:k])
        raise Unsupported("${%s%s}" % (name, mod[0]))

    def retext(self, t):
        return int(t) if is_dec(t) and t != "-0" else ("s", t)

    def match(self, subject, pat):
        if len(pat) == 1 and pat[0] == ("lit", "*"):
            return True
        v = self.value(subject)
        try:
            t = self.plain(v)
        except Unsupported:
            return Exec.match(self, subject, pat)
        return glob(self.pattern(pat), t) is not None

    def as_pieces(self, v):
        if isinstance(v, tuple) and v[0] == "s" and v[1] == "":
            return []
        return Exec.as_pieces(self, v)

    def pieces(self, parts, quoted=False):
        r = Exec.pieces(self, [("sub", p[1]) if p[0] == "cmd" else p for p in parts] if any(p[0] == "cmd" for p in parts) else parts, quoted) \
            if not any(p[0] == "cmd" for p in parts) else None
        if r is not None:
            return r
        ps = []
        for p in parts:
            if p[0] == "cmd":
                t = self.substitute(p[1])
                ps.append(("sq", t) if quoted else ("lit", t))
            else:
                ps.append(p)
        return Exec.pieces(self, ps, quoted)

    def substitute(self, prog):
        """Output of a subshell, without its trailing newlines."""
        w = self.w
        w.capture.append([])
        saved = (dict(w.vars), dict(w.mem), set(w.readonly), dict(w.fds), dict(w.outs), w.nounset, list(self.args), dict(self.funs))
        try:
            self.run(prog)
        except Leave as l:
            if l.kind != "exit":
                raise
        finally:
            w.vars, w.mem, w.readonly, w.fds, w.outs, w.nounset, self.args, self.funs = saved
            out = merge(w.capture.pop())
        if not out:
            return ""
        if len(out) > 1 or not isinstance(out[0], str):
            raise Unsupported("unknown text from a command substitution")
        return out[0].replace("\0", "").rstrip("\n")

    def arith(self, e):
        if e[0] == "late":
            t = ""
            for p in e[1]:
                if isinstance(p, str):
                    t += p
                    continue
                ps = self.pieces([p], True)
                for x in (ps[0] if ps else []):
                    if isinstance(x, str):
                        t += x
                    else:
                        raise Unsupported("unknown number inside a textual arithmetic expansion")
            return self.arith(Lexer(t + "))").arith())
        return Exec.arith(self, e)

    def key(self, frags):
        if len(frags) == 1 and frags[0][0] == "var" and frags[0][2] is not None and frags[0][2][0] in ("-", ":-"):
            # the text of the default is part of the expression
            name, mod = frags[0][1], frags[0][2]
            v = self.args[int(name) - 1] if name.isdigit() and 0 < int(name) <= len(self.args) else None
            if v is None:
                f = self.pieces(mod[1], True)
                t = self.plain(self.value(f[0] if f else []))
                return ("val", self.arith(("paren", Lexer(t + "))").arith())))
        if frags and all(f[0] in ("lit", "var") for f in frags):
            ps = []
            for f in frags:
                if f[0] == "lit":
                    ps.append(f[1])
                else:
                    ps.extend(self.as_pieces(self.param(f[1], f[2], True)))
            ps = merge(ps)
            if not ps:
                raise ShellSyntax("an arithmetic operand is empty")
        return Exec.key(self, frags)

    # ---- commands
    def cmd(self, c, tested=False):
        if c[0] == "redir":
            raise Unsupported("redirected compound command")
        if c[0] == "subshell":
            raise Unsupported("subshell")
        if c[0] == "case":
            f = self.pieces(c[1], True)       # not split into fields
            s = f[0] if f else []
            for pats, body in c[2]:
                for p in pats:
                    if self.match(s, p):
                        return self.run(body, tested) if body else True
            return True
        return Exec.cmd(self, c, tested)

    def redirect(self, redirs):
        """Descriptor that stands for standard output / standard input during the command."""
        out, inp = 1, 0
        for r in redirs:
            f = self.word1(r[1])
            v = self.value(f)
            if r[0] == ">&" and (len(r) < 3 or r[2] in (None, 1)):
                if not is_int(v):
                    raise Unsupported("redirection to %r" % (v,))
                out = v
            elif r[0] == "<&" and (len(r) < 3 or r[2] in (None, 0)):
                inp = v
            else:
                raise Unsupported("redirection %r" % (r,))
        return out, inp

    def simple(self, c):
        words, redirs = c[2], c[3]
        if words and len(words[0]) == 1 and words[0][0][0] == "lit":
            name = words[0][0][1]
            if name not in self.intr and name in ("printf", "echo", "read", "exec", "unset", "set", "[") and not c[1]:
                fields = []
                for x in words[1:]:
                    fields.extend(self.pieces(x))
                h = getattr(self, "b_" + {"[": "test"}.get(name, name))
                return h(fields, redirs)
        if redirs and words:
            out, inp = self.redirect(redirs)
            if out == 1 and inp == 0:
                return Exec.simple(self, ("simple", c[1], words, []))
            raise Unsupported("redirection of a command")
        return Exec.simple(self, c)

    def b_test(self, a, redirs):
        if not a or self.value(a[-1]) != ("s", "]"):
            raise ShellSyntax("[ without ]")
        return self.test(a[:-1])

    def test(self, a):
        vs = [self.value(x) for x in a]
        if len(a) == 2 and vs[0] in (("s", "-z"), ("s", "-n")):
            if isinstance(vs[1], tuple) and vs[1][0] not in ("s", "ref"):
                z = False
            else:
                z = self.plain(vs[1]) == ""
            return z if vs[0][1] == "-z" else not z
        if a and vs[0] == ("s", "!") and len(a) == 3:
            return not self.test(a[1:])
        if len(a) == 1:
            return self.plain(vs[0]) != ""
        if len(a) == 3 and vs[1][0:1] == ("s",) if isinstance(vs[1], tuple) else False:
            if vs[1][1] in ("=", "!="):
                r = self.text_equal(vs[0], vs[2])
                return r if vs[1][1] == "=" else not r
        return Exec.test(self, a)

    def text_equal(self, a, b):
        if isinstance(a, tuple) and a[0] == "ref" or isinstance(b, tuple) and b[0] == "ref":
            return self.plain(a) == self.plain(b)
        return Exec.text_equal(self, a, b)

    def testnum(self, v):
        if isinstance(v, tuple) and v[0] == "s":
            raise ShellSyntax("numeric test of the text %r" % (v[1],))
        return Exec.testnum(self, v)

    def b_set(self, a, redirs):
        vs = [self.value(x) for x in a]
        if vs and all(isinstance(v, tuple) and v[0] == "s" and v[1][:1] in ("-", "+") and v[1][1:].isalpha() for v in vs):
            for v in vs:
                if "u" in v[1]:
                    self.w.nounset = v[1][0] == "-"
            return True
        if vs and vs[0] == ("s", "--"):
            vs = vs[1:]
        self.args = vs
        return True

    def as_ref(self, v):
        return v

    def dest(self, ps):
        t = self.plain(self.value(ps))
        if not t or not is_name_start(t[0]) or not all(is_name_char(c) for c in t):
            raise ShellSyntax("a destination is not the name of a variable: %r" % (t,))
        return split_name(t)

    def b_unset(self, a, redirs):
        for x in a:
            p, i = split_name(self.plain(self.value(x)))
            if p == "_" and i is not None:
                self.w.mem.pop(i, None)
            else:
                self.w.vars.pop((p, i), None)
        return True

    def b_echo(self, a, redirs):
        out, _ = self.redirect(redirs)
        for n, x in enumerate(a):
            if n:
                self.w.put(out, " ")
            for p in x:
                self.w.put(out, p)
        self.w.put(out, "\n")
        return True

    def b_printf(self, a, redirs):
        out, _ = self.redirect(redirs)
        if not a:
            raise ShellSyntax("printf without a format")
        fmt = a[0]
        args = a[1:]
        # printf \ooo with unknown digits
        fp = merge(list(fmt))
        if any(not isinstance(p, str) for p in fp):
            if len(fp) == 4 and fp[0] == "\\" and all(isinstance(p, tuple) and p[0] == "d" for p in fp[1:]):
                d = [p[1] for p in fp[1:]]
                x = d[2][2] if d[2][0] == "o" and d[2][1] == "%" and d[2][3] == 8 else None
                if x is not None and d[0] == ("o", "/", x, 64) and d[1] == ("o", "%", ("o", "/", x, 8), 8):
                    self.w.put(out, ("chr", x))
                    return True
            raise ShellSyntax("printf format made of %r" % (fp,))
        f = fp[0] if fp else ""
        if f[:1] == "-" and len(f) > 1:
            raise ShellSyntax("the format of printf looks like an option")
        n = [0]

        def arg():
            n[0] += 1
            return self.value(args[n[0] - 1]) if n[0] <= len(args) else None
        first = True
        while first or n[0] < len(args):
            before = n[0]
            first = False
            self.one_printf(f, arg, out)
            if n[0] == before:
                break
        return True

    def one_printf(self, f, arg, out):
        i = 0
        put = self.w.put
        while i < len(f):
            c = f[i]
            if c == "\\":
                d = f[i + 1:i + 2]
                if d and d in "01234567":
                    j = i + 1
                    while j < len(f) and j < i + 4 and f[j] in "01234567":
                        j += 1
                    put(out, chr(int(f[i + 1:j], 8) & 255))
                    i = j
                    continue
                if d and d in ESC:
                    put(out, chr(ESC[d]))
                    i += 2
                    continue
                raise ShellSyntax("printf escape \\%s" % d)
            if c != "%":
                put(out, c)
                i += 1
                continue
            if f[i + 1:i + 2] == "%":
                put(out, "%")
                i += 2
                continue
            j = i + 1
            while j < len(f) and f[j] in "-+ #0":
                j += 1
            flags = f[i + 1:j]
            k = j
            while k < len(f) and f[k].isdigit():
                k += 1
            width = f[j:k]
            prec = None
            if f[k:k + 1] == ".":
                j = k + 1
                k = j
                while k < len(f) and f[k].isdigit():
                    k += 1
                prec = f[j:k]
            cv = f[k:k + 1]
            i = k + 1
            v = arg()
            if cv in ("d", "i", "u", "o", "x", "X"):
                if v is None:
                    v = 0
                if isinstance(v, tuple) and v[0] == "s" and v[1][:1] in "'\"" and v[1]:
                    b = ord(v[1][1]) if len(v[1]) > 1 else 0
                    if len(v[1]) > 2:
                        self.w.event("printf of a longer text as a character", v[1])
                    v = b - 256 if b >= 128 and self.w.schar else b
                if isinstance(v, tuple) and v[0] == "s" and v[1] == "":
                    v = 0
                if not is_int(v):
                    if isinstance(v, tuple) and v[0] in ("s", "mix", "ref"):
                        raise ShellSyntax("printf of the text %r as a number" % (v,))
                    put(out, ("fmt", flags, width, prec, cv, v))
                    continue
                spec = "%" + flags + width + ("" if prec is None else "." + prec)
                if cv == "u" or cv in "oxX":
                    v &= (1 << 64) - 1
                put(out, (spec + ("d" if cv in "iu" else cv)) % v)
            elif cv == "s":
                t = self.plain(("s", "") if v is None else v)
                put(out, ("%" + flags + width + ("" if prec is None else "." + prec) + "s") % t)
            elif cv == "c":
                t = self.plain(("s", "") if v is None else v)
                put(out, ("%" + flags + width + "s") % t[:1])
            else:
                raise ShellSyntax("printf conversion %%%s" % cv)

    def b_read(self, a, redirs):
        _, inp = self.redirect(redirs)
        ops = [self.plain(self.value(x)) for x in a]
        if ops[:1] != ["-r"] or len(ops) != 2:
            raise Unsupported("read %r" % (ops,))
        s = self.w.fds.get(inp)
        if s is None:
            self.w.event("read from a closed descriptor", inp)
            raise Leave("exit")
        t, p = s
        e = t.find("\n", p)
        line = t[p:] if e < 0 else t[p:e]
        s[1] = len(t) if e < 0 else e + 1
        if self.w.vars.get(("IFS", None)) != ("s", ""):
            line = line.strip(" \t")
        self.w.vars[split_name(ops[1])] = self.retext(line)
        return e >= 0

    def b_exec(self, a, redirs):
        if a or len(redirs) != 1:
            raise Unsupported("exec")
        r = redirs[0]
        fd = r[2] if len(r) > 2 and r[2] is not None else (0 if r[0][0] == "<" else 1)
        name = self.plain(self.value(self.word1(r[1])))
        w = self.w
        w.fds.pop(fd, None)
        w.outs.pop(fd, None)
        if r[0] in ("<&", ">&"):
            if name != "-":
                raise Unsupported("exec %s%s" % (r[0], name))
            w.event("close", fd)
            return True
        if r[0] == "<":
            if "file " + name in w.out:
                w.fds[fd] = [w.text_of("file " + name), 0]
            elif name in w.files:
                w.fds[fd] = [w.files[name], 0]
            else:
                w.event("open fails", name)
                raise Leave("exit")
        elif r[0] in (">", ">>"):
            w.outs[fd] = "file " + name
            if r[0] == ">":
                w.out["file " + name] = []
            else:
                w.out.setdefault("file " + name, [w.files[name]] if w.files.get(name) else [])
        else:
            raise Unsupported("exec %s" % r[0])
        w.event("open", fd, r[0], name)
        return True


def execute(text, args=(), files=None, stdin="", intr=None, script=(), budget=6, schar=True, steps=2000000):
    """(world, oracle, why it ended) of one path of the program."""
    prog = parse(text)
    o = Oracle(script, budget=budget)
    w = TextWorld(o, files, stdin, schar)
    x = TextExec(w, args, builtins=dict(intr or {}), steps=steps)
    end = "end"
    try:
        x.run(prog)
    except Leave as l:
        end = l.kind
    except Cutoff:
        end = "cutoff"
    w.steps_left = x.steps
    return w, o, end
