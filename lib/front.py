"""Abstract interpretation of the front end (lexer, preprocessor, parser).

Token level: the parser's source is interpreted over a token schema; the
token source (get_tok) is replaced by its contract, "advance to the next token
of the schema, with the current kind of an identifier".  The syntax tree left
in the abstract heap is read back as nested tuples and compared with the tree
the C grammar gives (computed by the independent grammar in this package).
Identifier and literal values are symbols, so one schema stands for every
spelling.
"""
from frontend import Broken, unit, loc
from cgram import KINDS
from absint import Interp, State, t_add, is_int

NAMES = {"&&": "AMP_AMP", "&=": "AMP_EQ", "->": "ARROW", "||": "BAR_BAR", "|=": "BAR_EQ", "^=": "CARET_EQ", "==": "EQ_EQ",
         ">=": "GT_EQ", "<<=": "LSHIFT_EQ", "<<": "LSHIFT", "<=": "LT_EQ", "-=": "MINUS_EQ", "--": "MINUS_MINUS",
         "!=": "EXCL_EQ", "%=": "PERCENT_EQ", "+=": "PLUS_EQ", "++": "PLUS_PLUS", ">>=": "RSHIFT_EQ", ">>": "RSHIFT",
         "/=": "SLASH_EQ", "*=": "STAR_EQ", "##": "HASH_HASH", "...": "ELLIPSIS"}
KW = ("auto break case char const continue default do double else enum extern float for goto if inline int long register "
      "return short signed sizeof static struct switch typedef union unsigned void volatile while").split()
SINGLE = "~.?,:;()[]{}+-*/%&|^!<>=#"


def opcode(u, name):
    """Numeric code of a token or node written as in C (or as one of the compiler's enum constants)."""
    if name in NAMES:
        name = NAMES[name]
    elif name in KW:
        name = name.upper() + "_KW"
    elif len(name) == 1:
        return ord(name)
    u.require_const(name)
    return u.consts[name]


NODES = ["INTEGER", "INTEGER_HEX", "INTEGER_OCT", "INTEGER_L", "INTEGER_LL", "INTEGER_U", "INTEGER_UL", "INTEGER_ULL",
         "CHARACTER", "STRING", "PLUS_PLUS_PRE", "MINUS_MINUS_PRE", "PLUS_PLUS_POST", "MINUS_MINUS_POST", "PARENS",
         "INITIALIZER_LIST", "DECL", "DECLS", "FUN_DECL", "CAST", "IDENTIFIER", "LIST"]


class Front:
    def __init__(self, cfg, typedefs=("T",)):
        self.cfg = cfg
        self.u = unit(cfg)
        self.names = {}
        for n in NODES:
            if n in self.u.consts:
                self.names[self.u.consts[n]] = n
        for k in KW:
            self.names[opcode(self.u, k)] = k
        for s, n in NAMES.items():
            if n in self.u.consts:
                self.names[self.u.consts[n]] = s
        for c in SINGLE:
            self.names[ord(c)] = c
        self.idents = {}
        self.heap = ("arr", "heap")
        self.ID = opcode(self.u, "IDENTIFIER")
        self.TYPE = opcode(self.u, "TYPE")
        self.u.require("get_tok")
        self.it = Interp(self.u, handlers={"get_tok": self.h_get_tok, "alloc_obj": self.h_alloc}, max_paths=20000, unroll=200, max_depth=400,
                         recurse=tuple(self.u.funcs))
        self.it.all_fixed = True
        self.base = self.fresh()
        for t in typedefs:
            self.typedef(t)

    def fresh(self):
        st = State()
        for g, d in self.u.globals.items():
            init = getattr(d, "init", None)
            if init is not None:
                v = self.u.const_eval(init)
                if v is not None:
                    st.g[g] = v
            elif type(d.type).__name__ == "TypeDecl":
                st.g[g] = 0
        st.g["heap_alloc"] = 1009
        st.g["$pos"] = 0
        return st

    # ---- heap
    def poke(self, st, a, v):
        st.mem[("m", t_add(self.heap, a))] = v

    def peek(self, st, a):
        return st.mem.get(("m", t_add(self.heap, a)))

    def ident(self, text, st=None):
        if text not in self.idents:
            a = 700000 + 16 * len(self.idents)
            self.idents[text] = a
        a = self.idents[text]
        st = st or self.base
        if self.peek(st, a + 2) is None:
            self.poke(st, a + 2, self.ID)
            self.poke(st, a + 3, 0)
        return a

    def typedef(self, name):
        """`name` denotes a user-defined type (an opaque int type node)."""
        a = self.ident(name)
        self.poke(self.base, a + 2, self.TYPE)
        n = self.base.g["heap_alloc"]
        self.base.g["heap_alloc"] = n + 2
        self.poke(self.base, n, opcode(self.u, "int"))
        self.poke(self.base, n + 1, 0)
        self.poke(self.base, a + 3, n)

    # ---- tokens
    def lex(self, text):
        """Token schema from text: identifiers, $n (an integer literal of unknown value), keywords, operators."""
        out = []
        i = 0
        ops = sorted(list(NAMES) + list(SINGLE), key=len, reverse=True)
        while i < len(text):
            c = text[i]
            if c.isspace():
                i += 1
                continue
            if c == "$":
                j = i + 1
                while j < len(text) and text[j].isalnum():
                    j += 1
                k = text[i + 1:j]
                out.append((opcode(self.u, KINDS.get(k[:1], "INTEGER")), ("v", "lit." + k)))
                i = j
            elif c.isdigit():
                j = i
                while j < len(text) and text[j].isdigit():
                    j += 1
                out.append((opcode(self.u, "INTEGER"), -int(text[i:j])))
                i = j
            elif c.isalpha() or c == "_":
                j = i
                while j < len(text) and (text[j].isalnum() or text[j] == "_"):
                    j += 1
                w = text[i:j]
                if w in KW:
                    out.append((opcode(self.u, w), None))
                else:
                    out.append(("id", self.ident(w)))
                i = j
            else:
                for o in ops:
                    if text.startswith(o, i):
                        out.append((opcode(self.u, o), None))
                        i += len(o)
                        break
                else:
                    raise Broken("schema token at %r" % text[i:])
        return out

    def h_get_tok(self, it, st, args, node):
        p = st.g["$pos"]
        if p < len(self.toks):
            t, v = self.toks[p]
            if t == "id":
                t = self.peek(st, v + 2)
            st.g["tok"] = t
            # only identifiers and literals define val; after any other token it may hold anything
            st.g["val"] = v if v is not None else ("v", "stale.val#%d" % p)
        else:
            st.g["tok"] = -1
            st.g["val"] = ("v", "stale.val#%d" % p)
            if p > len(self.toks) + 2000:
                raise Runaway()
        st.g["$pos"] = p + 1
        return [(None, st)]

    def h_alloc(self, it, st, args, node):
        """Remember which function of the compiler builds which node (for the report), then proceed normally."""
        a = st.g["heap_alloc"]
        if is_int(a):
            for f in reversed(it.stack):
                if f.startswith("parse_"):
                    self.maker[a] = f
                    break
        return NotImplemented

    def where(self, a):
        f = self.maker.get(a)
        d = self.u.funcs.get(f)
        return "%s (%s)" % (f, loc(d)) if d is not None else str(f)

    def parse(self, fname, toks, args=(), st=None):
        """[(root value, state)] of the paths on which the parser accepts, [(message, where)] of those on which it stops."""
        self.toks = toks
        self.maker = {}
        self.it.steps = 0
        s = (st or self.base).copy()
        s.g["$pos"] = 0
        self.h_get_tok(self.it, s, [], None)
        del self.it.deaths[:]
        rs = self.it.call(fname, list(args), s)
        return rs, list(self.it.deaths)

    # ---- reading trees back
    def node(self, st, a):
        h = self.peek(st, a) if is_int(a) else None
        if not is_int(h):
            raise BadTree("node %r" % (a,))
        op, n = h & 1023, h >> 10
        return self.names.get(op, "op%d" % op), n, [self.peek(st, a + 1 + i) for i in range(max(n, 1))]

    def name_of(self, v):
        for t, x in self.idents.items():
            if x == v:
                return t
        return show_val(v)

    def list(self, st, a, f):
        out = []
        while a != 0:
            nm, n, k = self.node(st, a)
            if nm != "LIST" or n != 2:
                raise BadTree("list node %s" % nm)
            out.append(f(st, k[0]))
            a = k[1]
            if len(out) > 500:
                raise BadTree("circular list")
        return tuple(out)

    def expr(self, st, a):
        """Expression tree, parentheses dropped, comma flattened."""
        nm, n, k = self.node(st, a)
        if nm == "PARENS":
            return self.expr(st, k[0])
        if n == 0:
            if nm == "IDENTIFIER":
                return self.name_of(k[0])
            v = show_val(k[0])
            return (nm, v[4:] if isinstance(v, str) and v.startswith("lit.") else v)
        if nm == "CAST":
            return (nm, self.abstract(st, k[0]), self.expr(st, k[1]))
        if nm == "sizeof":
            if self.node(st, k[0])[0] == "DECL":
                return (nm, self.abstract(st, k[0]))
            return (nm, self.expr(st, k[0]))
        if nm == "(" and n == 2:
            return ("call", self.expr(st, k[0]), self.list(st, k[1], self.expr))
        if nm == "," and n == 2:
            l, r = self.expr(st, k[0]), self.expr(st, k[1])
            return (",",) + (l[1:] if l[0] == "," else (l,)) + (r[1:] if r[0] == "," else (r,))
        if nm in POSTPRE:
            nm = POSTPRE[nm]
        return (nm,) + tuple(self.expr(st, x) for x in k)

    def stmt(self, st, a):
        if a == 0:
            return None
        nm, n, k = self.node(st, a)
        S, E = self.stmt, self.expr
        if nm == "if" and n == 3:
            return (nm, E(st, k[0]), S(st, k[1]), S(st, k[2]))
        if nm in ("switch", "while", "case") and n == 2:
            return (nm, E(st, k[0]), S(st, k[1]))
        if nm == "do" and n == 2:
            return (nm, S(st, k[0]), E(st, k[1]))
        if nm == "default":
            return (nm, S(st, k[0]))
        if nm == "for" and n == 4:
            return (nm,) + tuple(E(st, x) if x else None for x in k[:3]) + (S(st, k[3]),)
        if nm == "goto":
            return (nm, E(st, k[0]))
        if nm in ("continue", "break"):
            return (nm,)
        if nm == "return":
            return (nm, E(st, k[0]) if k[0] else None)
        if nm == ":" and n == 2:
            return (nm, E(st, k[0]), S(st, k[1]))
        if nm == "{" and n == 2:
            out = []
            while True:
                out.append(S(st, k[0]))
                if k[1] == 0:
                    return ("{",) + tuple(out)
                nm, n, k = self.node(st, k[1])
                if nm != "{" or n != 2:
                    raise BadTree("block continued by %s" % nm)
        if nm in ("DECLS", "typedef", "FUN_DECL", "struct", "union", "enum"):
            return self.declaration(st, a)
        return ("expr", E(st, a))

    def declaration(self, st, a):
        nm, n, k = self.node(st, a)
        if nm == "DECLS" and n == 2:
            return (nm, k[1], self.list(st, k[0], self.decl))
        if nm == "typedef" and n == 1:
            return (nm, self.list(st, k[0], self.decl))
        if nm == "FUN_DECL" and n == 2:
            return (nm, self.decl(st, k[0]), self.stmt(st, k[1]))
        if nm in ("struct", "union", "enum"):
            return ("tag", self.type(st, a))
        raise BadTree("declaration %s/%d" % (nm, n))

    def type(self, st, a):
        nm, n, k = self.node(st, a)
        if nm == "*" and n == 2:
            return ("*", k[0], self.type(st, k[1]))
        if nm == "[" and n == 2:
            return ("[", show_val(k[1]), self.type(st, k[0]))
        if nm == "(" and n == 3:
            return ("(", self.list(st, k[1], self.decl), int(bool(k[2])), self.type(st, k[0]))
        if nm in ("struct", "union") and n == 3:
            return (nm, k[0], self.expr(st, k[1]) if k[1] else None, self.list(st, k[2], self.decl))
        if nm == "enum" and n == 3:
            return (nm, k[0], self.expr(st, k[1]) if k[1] else None, self.list(st, k[2], self.expr))
        if n == 0:
            return (nm, k[0])
        raise BadTree("type node %s/%d" % (nm, n))

    def decl(self, st, a):
        nm, n, k = self.node(st, a)
        if nm != "DECL" or n != 3:
            raise BadTree("declaration node %s/%d" % (nm, n))
        return ("decl", self.expr(st, k[0]) if k[0] else None, self.type(st, k[1]), self.init(st, k[2]) if k[2] else None)

    def init(self, st, a):
        nm, n, k = self.node(st, a)
        if nm == "INITIALIZER_LIST":
            return ("{", ) + self.list(st, k[0], self.init)
        return self.expr(st, a)

    def abstract(self, st, a):
        d = self.decl(st, a)
        if d[1] is not None or d[3] is not None:
            raise BadTree("type name with a declarator name or an initializer")
        return d[2]


class BadTree(Exception):
    pass


POSTPRE = {"PLUS_PLUS_PRE": "pre++", "MINUS_MINUS_PRE": "pre--", "PLUS_PLUS_POST": "post++", "MINUS_MINUS_POST": "post--"}


def show_val(v):
    if isinstance(v, tuple) and v[0] == "v":
        return v[1]
    return v


class Runaway(Exception):
    """The parser keeps asking for tokens after the end of the input."""


def cwrap(v):
    return ((v + (1 << 31)) & ((1 << 32) - 1)) - (1 << 31) if is_int(v) else v


class Lexer:
    """Character level: get_tok itself interpreted over a source text whose characters are codes or symbols of known range."""

    def __init__(self, cfg, extra=None):
        self.cfg = cfg
        self.u = unit(cfg)
        self.u.require("get_tok", "init_ident_table", "init_pnut_macros")
        self.heap = ("arr", "heap")
        self.pool = ("arr", "string_pool")
        self.files = {}
        h = {"fgetc": self.h_fgetc, "end_ident": self.h_intern, "putchar": self.h_putchar, "fopen": self.h_fopen, "fclose": self.h_none,
             "malloc": self.h_malloc, "free": self.h_none, "strlen": self.h_strlen, "memcpy": self.h_memcpy}
        h.update(extra or {})
        self.wide = [a for a in ("val_32",) if a in self.u.globals]
        self.it = Interp(self.u, handlers=h, max_paths=20000, unroll=3000, max_depth=600, recurse=tuple(self.u.funcs),
                         on_store=self.store)
        self.it.all_fixed = True
        self.it.max_steps = 1 << 60
        self.it.on_unroll = self.runaway
        self.names = {}
        for n in NODES + ["MACRO", "TYPE", "MACRO_ARG"]:
            if n in self.u.consts:
                self.names[self.u.consts[n]] = n
        for k in KW:
            self.names[opcode(self.u, k)] = k
        for s, n in NAMES.items():
            if n in self.u.consts:
                self.names[self.u.consts[n]] = s
        for c in SINGLE:
            self.names[ord(c)] = c
        self.names[-1] = "EOF"
        self.names[10] = "NL"
        self.symid = {}
        self.base = self.boot()

    def store(self, addr, v, st, node):
        if is_int(v):
            b = addr[2][0][0] if isinstance(addr, tuple) and addr[0] == "lin" and len(addr[2]) == 1 else addr
            if isinstance(b, tuple) and b[0] == "arr" and b[1] in self.wide:
                st.mem[("m", addr)] = cwrap(v)
                return [st]
        return None

    def boot(self):
        st = State()
        for g, d in self.u.globals.items():
            init = getattr(d, "init", None)
            if init is not None:
                v = self.u.const_eval(init)
                if v is not None:
                    st.g[g] = v
            elif type(d.type).__name__ == "TypeDecl":
                st.g[g] = 0
        st.g["$cp"] = 0
        for a in ("heap_alloc", "string_pool_alloc"):
            if not is_int(st.g.get(a)):
                raise Broken("%s has no constant initial value" % a)
        for f in ("init_ident_table", "init_pnut_macros"):
            rs = self.it.call(f, [], st)
            if len(rs) != 1:
                raise Broken("%s() is not deterministic" % f)
            st = rs[0][1]
        st.g["fp"] = ("arr", "file0")
        inc = ("arr", "INC0")
        st.g["include_stack"] = inc
        st.mem[("f", "next", inc)] = 0
        st.mem[("f", "fp", inc)] = ("arr", "file0")
        st.mem[("f", "dirname", inc)] = ("s", "")
        st.mem[("f", "filepath", inc)] = ("s", "main.c")
        st.g["$new"] = 0
        st.g["ch"] = 10
        st.g["tok"] = 0
        st.trace = 0
        return st

    def runaway(self, n):
        raise Runaway("loop at %s" % loc(n))

    # ---- contracts
    def cstring(self, st, p):
        """Text of the NUL-terminated string at p, None when it is not known."""
        p = st.resolve(p)
        if isinstance(p, tuple) and p[0] == "s":
            return p[1]
        out = []
        for i in range(500):
            c = st.resolve(st.mem.get(("m", t_add(p, i)), ("v", "?")))
            if not is_int(c):
                return None
            if c == 0:
                return "".join(map(chr, out))
            out.append(c)
        return None

    def h_strlen(self, it, st, args, node):
        s = self.cstring(st, args[0])
        return NotImplemented if s is None else [(len(s), st)]

    def h_memcpy(self, it, st, args, node):
        d, s, n = st.resolve(args[0]), st.resolve(args[1]), st.resolve(args[2])
        if not is_int(n) or not 0 <= n < 1000:
            return NotImplemented
        vals = []
        for i in range(n):
            a = t_add(s, i)
            if isinstance(a, tuple) and a[0] == "lin" and len(a[2]) == 1 and a[2][0][0][0] == "s":
                a = a[2][0][0], a[1]
                vals.append(ord(a[0][1][a[1]]) if a[1] < len(a[0][1]) else 0)
            elif isinstance(a, tuple) and a[0] == "s":
                vals.append(ord(a[1][0]) if a[1] else 0)
            else:
                vals.append(st.mem.get(("m", a), ("v", "?")))
        for i, v in enumerate(vals):
            st.mem[("m", t_add(d, i))] = v
        return [(d, st)]

    def h_none(self, it, st, args, node):
        return [(0, st)]

    def h_malloc(self, it, st, args, node):
        st.g["$new"] += 1
        return [(("arr", "$new%d" % st.g["$new"]), st)]

    def h_fopen(self, it, st, args, node):
        name = self.cstring(st, args[0])
        if name is None or name not in self.files:
            return [(0, st)]
        st.g["$new"] += 1
        f = "$file%d:%s" % (st.g["$new"], name)
        st.g[f] = 0
        return [(("arr", f), st)]

    def h_fgetc(self, it, st, args, node):
        f = st.resolve(args[0])
        if isinstance(f, tuple) and f[0] == "arr" and f[1] in st.g:
            p = st.g[f[1]]
            st.g[f[1]] = p + 1
            text = self.files[f[1].split(":", 1)[1]]
            c = text[p] if p < len(text) else -1
            return [(ord(c) if isinstance(c, str) else c, st)]
        p = st.g["$cp"]
        st.g["$cp"] = p + 1
        if p < len(self.src):
            return [(self.src[p], st)]
        if p > len(self.src) + 500:
            raise Runaway()
        return [(-1, st)]

    def h_putchar(self, it, st, args, node):
        st.emit("out", args[0])
        return [(args[0], st)]

    def h_intern(self, it, st, args, node):
        """Interning of a spelling that contains unknown characters: equal spellings get one entry (property L03 checks the table itself)."""
        a, b = st.g["string_start"], st.g["string_pool_alloc"]
        cs = tuple(st.resolve(st.mem.get(("m", t_add(self.pool, i)), ("v", "?"))) for i in range(a, b))
        if all(is_int(c) for c in cs):
            return NotImplemented
        k = 900000 + 8 * self.symid.setdefault(cs, len(self.symid))
        st.mem.setdefault(("m", t_add(self.heap, k + 2)), self.u.consts["IDENTIFIER"])
        st.mem.setdefault(("m", t_add(self.heap, k + 1)), a)
        st.mem.setdefault(("m", t_add(self.heap, k + 4)), b - a)
        st.mem[("m", t_add(self.pool, b))] = 0
        st.g["string_pool_alloc"] = b + 1
        return [(k, st)]

    # ---- running
    def peek(self, st, a):
        v = st.mem.get(("m", t_add(self.heap, a)))
        return None if v is None else st.resolve(v)

    def spelling(self, st, v):
        """Characters of an interned string."""
        a, n = self.peek(st, v + 1), self.peek(st, v + 4)
        if not is_int(a) or not is_int(n):
            return None
        cs = [st.resolve(st.mem.get(("m", t_add(self.pool, a + i)), ("v", "?"))) for i in range(n)]
        return "".join(map(chr, cs)) if all(is_int(c) and 0 <= c < 0x110000 for c in cs) else tuple(cs)

    def start(self, text, base=None):
        self.src = [ord(c) if isinstance(c, str) else c for c in text]
        st = (base or self.base).copy()
        st.g["$cp"] = 0
        st.g["ch"] = 10
        del self.it.deaths[:]
        self.it.steps = 0
        return st

    def tokens(self, text, cons=(), base=None, limit=400):
        """[(tokens, state)] for every path; tokens are (kind, value) with identifier and string values spelled out.
        A path that stops with an error ends in ("die", message)."""
        st = self.start(text, base)
        for a, lo, hi in cons:
            st.assume(">=", a, lo)
            st.assume("<=", a, hi)
        out = []
        work = [((), st)]
        while work:
            toks, s = work.pop()
            nd = len(self.it.deaths)
            rs = self.it.call("get_tok", [], s)
            for name, args, ds, node, stack in self.it.deaths[nd:]:
                out.append((toks + (("die", args[0][1] if args and isinstance(args[0], tuple) and args[0][0] == "s" else args[:1]),), ds))
            for _, s2 in rs:
                t, v = s2.resolve(s2.g["tok"]), s2.resolve(s2.g["val"])
                k = self.names.get(t, t)
                if k == "EOF":
                    out.append((toks, s2))
                    continue
                if k in ("IDENTIFIER", "MACRO", "TYPE", "STRING") or k in KW:
                    v = self.spelling(s2, v) if is_int(v) else ("?", v)
                elif isinstance(k, str) and (k.startswith("INTEGER") or k == "CHARACTER"):
                    pass
                else:
                    v = None
                if len(toks) > limit:
                    raise Broken("token limit")
                work.append((toks + ((k, v),), s2))
        return out
