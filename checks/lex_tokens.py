"""L01: the lexer splits the source into C's tokens, with C's values."""
from frontend import CONFIGS, Broken
from front import Lexer, KW, NAMES, SINGLE, Runaway, opcode
from absint import is_int, t_bin

OPS = sorted(set(NAMES) | set(SINGLE))


def V(n):
    return ("v", n)


def chars(parts):
    out = []
    for p in parts if isinstance(parts, (list, tuple)) else [parts]:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def show(parts):
    out = []
    for c in chars(parts):
        out.append(c if isinstance(c, str) else "<%s>" % (c[1] if isinstance(c, tuple) else c))
    return "".join(out).replace("\n", "\\n").replace("\t", "\\t")


def munch(s):
    """Reference: C 6.4p4, longest operator first; None when some prefix is not an operator of the compiler."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == " ":
            i += 1
            continue
        for n in (3, 2, 1):
            if s[i:i + n] in OPS and len(s[i:i + n]) == n:
                out.append(s[i:i + n])
                i += n
                break
        else:
            return None
    return out


class Check:
    def __init__(self, r, cfg):
        self.r = r
        self.L = Lexer(cfg)
        self.cfg = cfg
        self.sh = "INTEGER_HEX" in self.L.u.consts
        self.wide = "val_32" in self.L.u.globals

    def same_value(self, st, got, want):
        """Values of 8-byte configurations are boxed unless small."""
        if got == want:
            return True
        if is_int(want):
            return st.compare("==", got, want) is True
        return got == want

    def int_value(self, st, v):
        """Value of an integer token, as an unsigned 64-bit number or a term."""
        if not self.wide:
            return t_bin("*", v, -1)
        if is_int(v) and v <= 0:
            return -v
        if is_int(v):
            lo, hi = self.L.peek(st, v), self.L.peek(st, v + 1)
            if is_int(lo) and is_int(hi):
                return (lo & 0xffffffff) | (hi & 0xffffffff) << 32
        return ("boxed", v)

    def run(self, rule, key, parts, want, cons=(), where="get_tok"):
        """Every path's tokens must be `want`, a list of (kind, value); value None = not compared; want None = must be rejected."""
        self.L.symid = {}
        try:
            rs = self.L.tokens(chars(parts), cons)
        except Runaway:
            self.r.ob(rule, False, key, where, "`%s`: the lexer does not stop at the end of the input" % show(parts))
            return
        msg = None
        for toks, st in rs:
            if toks and toks[-1][0] == "die":
                if want is not None:
                    msg = "`%s` is rejected (%s)" % (show(parts), toks[-1][1])
                continue
            if want is None:
                msg = "`%s` is accepted as %s" % (show(parts), toks)
                continue
            got = []
            for i, (k, v) in enumerate(toks):
                if isinstance(k, str) and k.startswith("INTEGER"):
                    v = self.int_value(st, v)
                got.append((k, v))
            ok = len(got) == len(want)
            if ok:
                for (k, v), (wk, wv) in zip(got, want):
                    if k != wk or (wv is not None and not self.same_value(st, v, wv)):
                        ok = False
            if not ok:
                msg = "`%s` gives %s, C has %s" % (show(parts), got, want)
        if not rs:
            msg = "`%s`: no token" % show(parts)
        self.r.ob(rule, msg is None, key, where, msg or "", sample=show(parts) if msg is None else None)

    # ---- rules
    def operators(self, deep):
        for a in OPS:
            self.run("operators", "operator %s" % a, "x " + a + " y", [("IDENTIFIER", "x"), (a, None), ("IDENTIFIER", "y")])
            self.run("operators", "operator %s tight" % a, "x" + a + "y", [("IDENTIFIER", "x"), (a, None), ("IDENTIFIER", "y")])
            for b in OPS:
                s = a + b
                if "//" in s or "/*" in s:
                    continue
                for t in (s, a + " " + b):
                    w = munch(t)
                    if ".." in s and "..." not in s:
                        continue            # `..` is not a sequence of C tokens the compiler can see unspaced
                    if "...." in s:
                        continue
                    # the schema token after the pair shows where the pair stops
                    self.run("longest match", "operators %s" % t, "x " + t + " y", [("IDENTIFIER", "x")] + [(o, None) for o in w] + [("IDENTIFIER", "y")])
                if deep:
                    for c in OPS:
                        s = a + b + c
                        if "//" in s or "/*" in s or ".." in s:
                            continue
                        self.run("longest match", "operators %s" % s, "x " + s + " y", [("IDENTIFIER", "x")] + [(o, None) for o in munch(s)] + [("IDENTIFIER", "y")])

    def identifiers(self):
        CL = {"lower": (97, 122), "upper": (65, 90), "under": (95, 95), "digit": (48, 57)}
        first = ("lower", "upper", "under")
        import itertools
        for n in (1, 2, 3):
            for cl in itertools.product(CL, repeat=n):
                if cl[0] not in first:
                    continue
                cs = [V("c%d" % i) if k != "under" else 95 for i, k in enumerate(cl)]
                cons = [(V("c%d" % i),) + CL[k] for i, k in enumerate(cl) if k != "under"]
                if n <= 3 and all(k == "lower" for k in cl):
                    pass
                sp = tuple(cs)
                if all(is_int(c) for c in sp):
                    sp = "".join(map(chr, sp))
                self.run("identifiers", "identifier of " + " ".join(cl), ["; "] + cs + [" ;"], [(";", None), ("IDENTIFIER", sp), (";", None)], cons)
                self.run("identifiers", "same identifier twice of " + " ".join(cl), ["; "] + cs + ["("] + cs + [")"],
                         [(";", None), ("IDENTIFIER", sp), ("(", None), ("IDENTIFIER", sp), (")", None)], cons)
        for k in KW:
            self.run("keywords", "keyword " + k, "; " + k + ";", [(";", None), (k, None), (";", None)])
            for extra, lo, hi in (("lower", 97, 122), ("digit", 48, 57), ("upper", 65, 90)):
                for before in (False, True):
                    if before and extra == "digit":
                        continue
                    if k == "do" and extra == "lower" and not before:
                        pass
                    parts = ["; "] + ([V("c")] if before else []) + [k] + ([] if before else [V("c")]) + [" ;"]
                    sp = tuple(([V("c")] if before else []) + [ord(x) for x in k] + ([] if before else [V("c")]))
                    self.run("keywords", "keyword %s %s a %s character" % (k, "after" if before else "before", extra), parts,
                             [(";", None), ("IDENTIFIER", sp), (";", None)], [(V("c"), lo, hi)])
            if len(k) > 2 and k[:-1] not in KW:
                self.run("keywords", "keyword %s cut short" % k, "; " + k[:-1] + " ;", [(";", None), ("IDENTIFIER", k[:-1]), (";", None)])
            if k.upper() != k:
                self.run("keywords", "keyword %s in capitals" % k, "; " + k.upper() + " ;", [(";", None), (None if False else "IDENTIFIER", k.upper()), (";", None)])

    def kind(self, base, suf, zero=False):
        s = suf.lower()
        if self.sh:
            return {10: "INTEGER", 16: "INTEGER_HEX", 8: "INTEGER_OCT"}[10 if zero else base]
        return {"": "INTEGER", "l": "INTEGER_L", "ll": "INTEGER_LL", "u": "INTEGER_U", "ul": "INTEGER_UL", "lu": "INTEGER_UL", "ull": "INTEGER_ULL", "llu": "INTEGER_ULL"}[s]

    def integers(self, deep):
        sufs = [""] if self.sh else ["", "l", "L", "ll", "LL", "u", "U", "ul", "UL", "uL", "Ul", "lu", "LU", "lU", "Lu", "ull", "ULL", "uLL", "Ull", "llu", "LLU", "llU", "LLu"]
        bits = 64 if self.wide else 31
        if not self.wide:
            D = {"digit": (48, 57), "nonzero": (49, 57), "octal": (48, 55), "a-f": (97, 102), "A-F": (65, 70), "octal1": (49, 55)}
            off = {"digit": 48, "nonzero": 48, "octal": 48, "octal1": 48, "a-f": 87, "A-F": 55}
            import itertools
            seqs = []
            for n in range(1, 9):
                seqs.append((10, "", ("nonzero",) + ("digit",) * (n - 1)))
                seqs.append((8, "0", ("octal1",) + ("octal",) * (n - 1)))
            for n in (1, 2, 3):
                for cl in itertools.product(("digit", "a-f", "A-F"), repeat=n):
                    for p in ("0x", "0X"):
                        seqs.append((16, p, cl))
            for base, pre, cl in seqs:
                cs = [V("d%d" % i) for i in range(len(cl))]
                cons = [(c,) + D[k] for c, k in zip(cs, cl)]
                val = 0
                for c, k in zip(cs, cl):
                    val = t_bin("+", t_bin("*", val, base), t_bin("-", c, off[k]))
                self.run("integers", "base %d: %s of %s" % (base, pre, " ".join(cl)), ["; ", pre] + cs + [";"],
                         [(";", None), (self.kind(base, ""), val), (";", None)], cons)
        vals = set()
        for k in range(bits):
            vals |= {1 << k, (1 << k) - 1, (1 << k) + 1}
        vals |= {10 ** k for k in range(1, 20)} | {0x123456789abcdef, 0xfedcba987654321, 0xdeadbeef, 4000000000, 305419896, 2863311530, 1431655765}
        if self.wide:
            vals |= {(1 << 64) - 1, (1 << 63) + 12345, 18446744073709551557, 9999999999999999999}
        for v in sorted(vals):
            if v >= 1 << bits:
                continue
            for base, txt in ((10, "%d" % v), (16, "0x%x" % v), (16, "0X%X" % v), (8, "0%o" % v)):
                for s in sufs if (deep or v in (0, 1, 255, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 63)) else sufs[:1]:
                    b = 10 if txt in ("0", "00") else base
                    if txt == "0x0" or txt == "0X0":
                        b = 16
                    self.run("integers", "integer %s%s" % (txt, s), "; " + txt + s + ";", [(";", None), (self.kind(b, s, txt in ("0", "00")), v), (";", None)])
        for bad in ("0x", "0X;", "0xg"):
            self.run("integers", "hexadecimal without digits %s" % bad, "; " + bad + " ;", None)

    ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34}

    def items(self):
        """(key, source characters, value, constraints, first characters that would extend it)"""
        for c, v in self.ESC.items():
            yield "escape \\%s" % c, ["\\" + c], v, []
        for lo, hi, nm in ((32, 33, "space !"), (35, 38, "# to &"), (40, 47, "( to /"), (48, 57, "digit"), (58, 91, ": to ["), (93, 126, "] to ~")):
            yield "plain %s" % nm, [V("p")], V("p"), [(V("p"), lo, hi)]
        for n in (1, 2, 3):
            ds = [V("o%d" % i) for i in range(n)]
            cons = [(d, 48, 51 if (i == 0 and n == 3) else 55) for i, d in enumerate(ds)]
            val = 0
            for d in ds:
                val = t_bin("+", t_bin("*", val, 8), t_bin("-", d, 48))
            yield "octal escape of %d digits" % n, ["\\"] + ds, val, cons
        H = {"digit": (48, 57, 48), "a-f": (97, 102, 87), "A-F": (65, 70, 55)}
        for a in H:
            yield "hex escape %s" % a, ["\\x", V("h0")], t_bin("-", V("h0"), H[a][2]), [(V("h0"),) + H[a][:2]]
            for b in H:
                yield ("hex escape %s %s" % (a, b), ["\\x", V("h0"), V("h1")],
                       t_bin("+", t_bin("*", t_bin("-", V("h0"), H[a][2]), 16), t_bin("-", V("h1"), H[b][2])), [(V("h0"),) + H[a][:2], (V("h1"),) + H[b][:2]])

    def concrete(self, ps, cons, val):
        """Boundary instances of a symbolic item (escapes are reduced modulo 256 in the compiler, opaque to the term language)."""
        import itertools
        names = [c for c, _, _ in cons]
        rngs = [(lo, hi, (lo + hi) // 2) for _, lo, hi in cons]
        for combo in sorted(set(itertools.product(*rngs))):
            sub = dict(zip(names, combo))
            yield [sub.get(p, p) if isinstance(p, tuple) else p for p in ps], ev(val, sub)

    def literals(self, deep):
        items = []
        for key, ps, val, cons in self.items():
            if any(isinstance(p, tuple) for p in ps) and "plain" not in key:
                for q, v in self.concrete(ps, cons, val):
                    items.append(("%s %s" % (key, show(q)), q, v & 255, []))
            else:
                items.append((key, ps, val, cons))
        for key, ps, val, cons in items + [('plain "', ['"'], 34, [])]:
            self.run("characters", "character " + key, ["; '"] + ps + ["' ;"], [(";", None), ("CHARACTER", val), (";", None)], cons)
        for key, ps, val, cons in items + [("plain '", ["'"], 39, [])]:
            one = lambda v: chr(v) if is_int(v) else v
            for b, a in (("", ""), ("x", "y")) + ((("0", "8"), ("7", "g")) if "\\" not in key or "escape \\" in key else ((("0", "g"),))):
                if a and ("octal" in key and a in "01234567" or "hex" in key and a in "0123456789abcdefABCDEF"):
                    continue
                sp = [ord(x) for x in b] + [val] + [ord(x) for x in a]
                sp = "".join(map(chr, sp)) if all(is_int(x) for x in sp) else tuple(sp)
                self.run("strings", "string %r %s %r" % (b, key, a), ['; "', b] + ps + [a, '" ;'], [(";", None), ("STRING", sp), (";", None)], cons)
        # an escape takes no more digits than C allows
        self.run("strings", "three octal digits, then a digit", ['"\\1234" "\\0018" "\\08"'], [("STRING", "S4"), ("STRING", "\x018"), ("STRING", "\x008")])
        self.run("strings", "empty string", '; "" ;', [(";", None), ("STRING", ""), (";", None)])
        for q in ('"', "'"):
            self.run("unterminated", "unterminated %s at the end of the file" % q, "; " + q + "a", None)
        self.run("unterminated", "character constant of two characters", "; 'ab' ;", None)
        self.run("unterminated", "unterminated comment", "; /* a ;", None)
        self.run("unterminated", "unterminated comment /*/", "; /*/", None)
        self.run("unterminated", "unterminated comment ending in *", "; /* *", None)

    def separators(self):
        toks = [("IDENTIFIER", "x", "x"), ("int", None, "int"), ("INTEGER", 12, "12"), ("CHARACTER", 97, "'a'"), ("STRING", "s", '"s"')]
        toks += [(o, None, o) for o in ("+", "-", "++", "<", "<<=", "(", ")", "&", "&&", "/", "*", ".", "->", "=", "!", "{", ";", "%", "...")]
        seps = [[" "], ["\t"], ["\n"], [" \n\t "], ["\r\n"], ["/**/"], ["/***/"], ["/* * / // \" ' */"], ["/*/*/"], ["/*\n*/"], ["// c\n"], ["//\n"], ["// /* \n"], ["/*", V("k"), "*/"],
                ["/* ", V("k"), V("l"), " */"], ["//", V("k"), "\n"], ["//\\\\", V("k"), "z\n"], ["\\\n"], [" \\\n "], ["/**//**/"], ["/* a */ // b\n /* c */"]]
        cons = [(V("k"), 32, 126), (V("l"), 32, 126)]
        for si, sep in enumerate(seps):
            has = any(isinstance(p, tuple) for p in sep)
            for a in toks:
                for b in toks:
                    if has and (a[2], b[2]) not in (("x", "x"), ("+", "+"), ("12", "12"), ("/", "*"), ("x", ";")):
                        continue
                    if a[2] == "/" and show(sep).startswith("/"):
                        continue
                    # `*` then `/` inside a two-character symbolic comment ends it early: excluded by the reference below
                    c = list(cons)
                    if has and V("l") in sep:
                        c = [(V("k"), 43, 126), (V("l"), 48, 126)]
                    elif has and sep[0] == "/*":
                        c = [(V("k"), 48, 126)]
                    elif has:
                        c = [(V("k"), 32, 91)]
                    self.run("separators", "%s between %s and %s" % (show(sep), a[2], b[2]), [a[2]] + sep + [b[2]], [(a[0], a[1]), (b[0], b[1])], c if has else [])
        for tail in ("", "\n", " ", "// c", "/* c */", "\n\n"):
            self.run("separators", "end of file after %r" % tail, "x;" + tail, [("IDENTIFIER", "x"), (";", None)])
        self.run("separators", "empty file", "", [])
        # adjacency of different classes without separator
        for a in toks[:5]:
            for b in toks[5:]:
                if b[2] in (".", "..."):
                    continue
                self.run("adjacency", "%s%s" % (a[2], b[2]), a[2] + b[2] + " y", [(a[0], a[1]), (b[0], b[1]), ("IDENTIFIER", "y")])
        for a in toks[5:]:
            for b in toks[:5]:
                if a[2] in (".",) and b[2] == "12":
                    continue
                self.run("adjacency", "%s%s" % (a[2], b[2]), "y " + a[2] + b[2], [("IDENTIFIER", "y"), (a[0], a[1]), (b[0], b[1])])
        self.run("adjacency", "literals next to each other", "'a'\"b\"x'c'12\"d\"", [("CHARACTER", 97), ("STRING", "b"), ("IDENTIFIER", "x"), ("CHARACTER", 99), ("INTEGER", 12), ("STRING", "d")])
        bad = [c for c in range(33, 127) if chr(c) not in "".join(OPS) and not chr(c).isalnum() and chr(c) not in "_\"'\\"]
        for c in bad:
            self.run("foreign characters", "character %r" % chr(c), ["x ", c, " y"], None)
        for c in range(127, 256):
            self.run("foreign characters", "character code %d" % c, ["x ", c, " y"], None)


def ev(t, sub):
    if is_int(t):
        return t
    if t in sub:
        return sub[t]
    if t[0] == "lin":
        return t[1] + sum(k * ev(a, sub) for a, k in t[2])
    raise Broken("value %r" % (t,))


def run_cfg(r, cfg, what, deep):
    c = Check(r, cfg)
    f = getattr(c, what)
    f(deep) if what in ("operators", "integers", "literals") else f()
    r.use(c.L.u, [x for x in c.L.it.funcs_seen])


def run(r):
    r.rule("operators", "each operator and punctuator of the language is one token of its own kind")
    r.rule("longest match", "any two operators written together (three in the thorough tier) are split by the longest-match rule")
    r.rule("identifiers", "letters, digits and underscores make one identifier token carrying exactly the spelling, for every spelling of the schema; the same spelling twice is the same identifier")
    r.rule("keywords", "each keyword is its token, and anything longer, shorter or in capitals is an identifier")
    r.rule("integers", "the value is the one the digits denote in the base their prefix denotes (every digit string of up to 8 digits as a term where values fit a word; boundary values of all 64 bits otherwise), and the suffix decides the kind")
    r.rule("characters", "a character constant is the code of its character or of its escape sequence")
    r.rule("strings", "a string literal has exactly the characters written, escapes replaced")
    r.rule("unterminated", "an unterminated literal or comment is rejected")
    r.rule("separators", "white space, comments and line continuations separate tokens and are otherwise ignored")
    r.rule("adjacency", "tokens of different classes need no separator")
    r.rule("foreign characters", "a character that cannot start a token is rejected")
    r.assumptions.append("fgetc returns the bytes of the file in order and then EOF; identifiers with unknown characters are interned by spelling (the intern table is property L03's subject)")
    cfgs = ["sh", "x64", "i386"] if r.tier == "quick" else ["sh", "sh-fast", "x64", "i386", "mac", "x64-release", "sh-release", "x64-safe", "sh-safe"]
    tasks = []
    for c in cfgs:
        if c in CONFIGS:
            for w in ("operators", "identifiers", "integers", "literals", "separators"):
                tasks.append(("%s/%s" % (c, w), lambda q, c=c, w=w: run_cfg(q, c, w, r.tier == "thorough")))
    r.parallel(tasks)
    r.expect("longest match", 1000)
