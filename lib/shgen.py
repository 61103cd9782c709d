"""Shell code emitted for syntax trees of one shell configuration of pnut.

The code generator is interpreted abstractly (lib/absint.py) on syntax trees
whose leaves are opaque: an opaque identifier is a one-letter name outside of
the character range of C source, so nothing can be assumed about it, and an
opaque literal is an unknown integer.  What reaches putchar()/putint() is
collected as text; opaque leaves stay recognisable in it.
"""
from frontend import unit, Broken
from absint import Interp, State, t_add, is_int, base_of, lin_parts
from pycparser import c_ast
from cgen import macro

OPAQUE = 0x4E00
NUM0 = 0xAC00      # opaque integers


class ShGen:
    _base = {}

    def __init__(self, cfg="sh"):
        self.cfg = cfg
        self.u = unit(cfg)
        if cfg in ShGen._base:
            b = ShGen._base[cfg]
            self.__dict__.update(b.__dict__)
            self.__dict__["st"] = b.st.copy()
            self.names = dict(b.names)
            self.nums = []
            return
        self.names = {}
        self.nums = []
        self.zero = {n for n, d in self.u.globals.items()}
        self.st = State()
        self.it = self.interp()
        self.call("init_ident_table")
        for f in ("init_pnut_macros", "codegen_begin"):
            if f in self.u.funcs:
                self.call(f)
        self.st.trace = 0
        base = ShGen.__new__(ShGen)
        base.__dict__.update(self.__dict__)
        base.st = self.st.copy()
        base.names = dict(self.names)
        ShGen._base[cfg] = base

    def fork(self):
        g = type(self).__new__(type(self))
        g.__dict__.update(self.__dict__)
        g.st = self.st.copy()
        g.names = dict(self.names)
        g.nums = list(self.nums)
        return g

    def interp(self):
        u = self.u
        h = {"putchar": h_putchar, "putint": h_putint, "printf": h_printf, "fputs": h_fputs, "putstr": h_putstr}
        it = Interp(u, handlers=h, max_paths=4000, max_depth=4000, unroll=100000,
                    recurse=tuple(u.funcs), on_load=self.on_load, on_global=self.on_global)
        it.all_fixed = True
        it.max_steps = 10 ** 9
        return it

    # file-scope objects start zeroed
    def on_global(self, n, st):
        d = self.u.globals.get(n)
        if d is None:
            return None
        if isinstance(d.type, c_ast.ArrayDecl):
            return ("arr", n)
        if d.init is None:
            return 0
        v = self.u.const_eval(d.init)
        if v is None:
            if isinstance(d.init, c_ast.Constant) and d.init.type == "string":
                from frontend import parse_const
                return parse_const(d.init)
        return v

    def on_load(self, addr, st, node):
        b = base_of(addr)
        if b is None:
            return None
        k = ("m", addr)
        if k in st.mem:
            return None
        d = self.u.globals.get(b[1])
        if d is not None and d.init is None:
            return 0
        return None

    # ---- calls into the code
    def call(self, name, *args):
        self.u.require(name)
        self.it.deaths = []
        rs = self.it.call(name, list(args), self.st)
        if not rs and self.it.deaths:
            raise Rejected(self.it.deaths[-1])
        if len(rs) != 1 or self.it.deaths:
            raise Broken("%s%r is not deterministic on this tree (%d paths)" % (name, args, len(rs)))
        v, self.st = rs[0]
        return v

    def op(self, name):
        if len(name) == 1:
            return ord(name)
        self.u.require_const(name)
        return self.u.consts[name]

    def intern(self, chars):
        """An identifier or string made by the lexer's own primitives."""
        self.call("begin_string")
        for c in chars:
            self.call("accum_string_char", c)
        return self.call("end_ident")

    def string(self, text):
        """A string literal (characters of `text`), as the lexer makes it."""
        return self.intern([ord(c) for c in text])

    def probe(self, name):
        """Probe of an identifier; `name` is a real spelling, or an opaque name when it starts with '?'."""
        if name not in self.names:
            if name.startswith("?"):
                self.names[name] = self.intern([OPAQUE + len([n for n in self.names if n.startswith("?")])])
            else:
                self.names[name] = self.intern([ord(c) for c in name])
        return self.names[name]

    def spelling(self, name):
        if not name.startswith("?"):
            return name
        self.probe(name)
        i = [n for n in self.names if n.startswith("?")].index(name)
        return chr(OPAQUE + i)

    def node(self, op, *ch):
        return self.call("new_ast%d" % len(ch), self.op(op) if isinstance(op, str) else op, *ch)

    def atom(self, op, val=0):
        return self.call("new_ast0", self.op(op) if isinstance(op, str) else op, val)

    def ident(self, name):
        return self.atom("IDENTIFIER", self.probe(name))

    def list(self, xs):
        r = 0
        for x in reversed(xs):
            r = self.node("LIST", x, r)
        return r

    def text(self):
        """Everything printed since the trace was cleared."""
        out = []
        for ev in self.st.events():
            if ev[0] == "out":
                out.append(ev[1])
            elif ev[0] == "outint":
                out.append(str(ev[1]) if is_int(ev[1]) else self.num_text(ev[1]))
        return "".join(out)

    def num_text(self, t):
        raise Broken("an unknown integer %r is printed" % (t,))

    def clear(self):
        self.st.trace = 0


class Rejected(Exception):
    """The code generator stops with an error message."""

    def __init__(self, death):
        self.name, self.args_, st, self.node, self.stack = death
        a = death[1][0] if death[1] else None
        self.message = a[1] if isinstance(a, tuple) and a and a[0] == "s" else repr(a)
        Exception.__init__(self, self.message)


def h_putchar(it, st, args, node):
    c = args[0]
    if not is_int(c):
        raise Broken("putchar of an unknown value %r" % (c,))
    st.emit("out", chr(c) if c >= 256 else chr(c & 255))
    return [(c, st)]


def h_putint(it, st, args, node):
    if is_int(args[0]) and it.u.funcs.get("putint") is not None and node is not None and False:
        return NotImplemented
    st.emit("outint", args[0])
    return [(0, st)]


def h_putstr(it, st, args, node):
    a = args[0]
    if isinstance(a, tuple) and a[0] == "s":
        st.emit("out", a[1])
        return [(0, st)]
    return NotImplemented


def h_fputs(it, st, args, node):
    return h_putstr(it, st, args, node)


def h_printf(it, st, args, node):
    st.emit("out", "<printf>")
    return [(0, st)]
