"""Compositional analysis of the native code generator.

One syntax-tree constructor at a time is handed to the code generator with
opaque operands ("leaves").  The recursive call on a leaf is replaced by its
contract (assume/guarantee), the code generator itself is abstractly
interpreted down to the bytes of the code buffer, the bytes are decoded by the
independent decoder, and the control-flow/data-flow graph of the machine code
is compared with the reference graph of the C construct.  Because every
constructor is checked under the contract of its children, the result holds by
structural induction for all expressions and statements.
"""
from frontend import Broken, unit, preprocess, FAKE, REPO
from absint import Interp, State, Dom, t_add, t_bin, t_scale, is_int, lin_parts, base_of
from native import (BASE_HANDLERS, code_store, Frag, Machine, M, pseudo, word, mode, put, SP0, CODE0, is_stack, is_temp,
                    AX, CX, DX, BX, SP)
from x86dec import Decoder, BadCode, REGS
import subprocess

FS0 = ("v", "FS0")
LABEL0 = 10 ** 6


class FrameError(Exception):
    pass


def h_label(it, st, args, node):
    st.n += 1
    return [(LABEL0 + st.n, st)]


def macro(u, text):
    """Value of a macro expression in this configuration."""
    key = (u.name, text)
    if key not in _macro:
        src = '#include "pnut.c"\nint VT_PROBE = %s;\n' % text
        p = subprocess.run(["gcc", "-E", "-nostdinc", "-I" + FAKE, "-I" + REPO] + list(u.flags) + ["-"],
                           cwd=REPO, capture_output=True, text=True, input=src)
        if p.returncode:
            raise Broken("cannot preprocess a probe of %s" % text)
        from pycparser import c_parser
        t = p.stdout[p.stdout.rindex("int VT_PROBE"):]
        d = c_parser.CParser().parse(t).ext[0]
        v = u.const_eval(d.init)
        if v is None:
            raise Broken("macro %s has no constant value" % text)
        _macro[key] = v
    return _macro[key]


_macro = {}


def known_idents(u):
    """Global variables that the code sets to the identifier of a fixed name."""
    from pycparser import c_ast
    from frontend import walk
    out = []
    for f in u.funcs.values():
        for n in walk(f):
            if isinstance(n, c_ast.Assignment) and n.op == "=" and isinstance(n.lvalue, c_ast.ID) and n.lvalue.name in u.globals:
                c = n.rvalue
                if isinstance(c, c_ast.FuncCall) and isinstance(c.name, c_ast.ID) and c.name.name == "init_ident":
                    t = c.args.exprs[1]
                    if isinstance(t, c_ast.Constant) and t.type == "string":
                        out.append((n.lvalue.name, t.value[1:-1]))
    return out


class Gen:
    """Builds syntax trees, types and bindings in the abstract heap of one configuration."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.u = unit(cfg)
        self.W = word(self.u)
        self.mode = mode(self.u)
        self.leaves = {}
        self.idents = {}
        h = dict(BASE_HANDLERS)
        h.pop("alloc_goto_label")
        h["alloc_label"] = h["alloc_label_"] = h_label
        h["init_ident"] = self.h_ident
        h["codegen_rvalue"] = self.h_rvalue
        h["codegen_lvalue"] = self.h_lvalue
        h["codegen_statement"] = self.h_statement
        h["value_type"] = self.h_type
        self.it = Interp(self.u, handlers=h, on_store=code_store, max_paths=5000,
                         recurse=("codegen_rvalue", "codegen_lvalue", "codegen_statement", "value_type", "codegen_body",
                                  "codegen_initializer", "type_width", "struct_union_size", "type_largest_member",
                                  "struct_member_offset_go", "struct_member_go", "canonicalize_type", "codegen_params",
                                  "is_function_type", "handle_enum_struct_union_type_decl"))
        if self.whole:
            self.it.on_global = self.initial
        st = State()
        st.g["heap_alloc"] = self.u.consts.get("HASH_PRIME", 1009)
        st.g["code_alloc"] = 0
        for g in ("cgc_fs", "cgc_locals", "cgc_locals_fun", "cgc_globals", "cgc_global_alloc"):
            if g in self.u.globals:
                st.g[g] = 0
        self.st = st
        for name, text in known_idents(self.u):
            st.g[name] = self.ident(text)
        if "codegen_begin" in self.u.funcs:
            self.call("codegen_begin")
            self.reset_code(self.st)
        self.st.g["cgc_fs"] = FS0
        self.types = {}
        self.unsigned = macro(self.u, "MK_TYPE_SPECIFIER(UNSIGNED_KW)")

    whole = False  # a whole program: global variables start with their initial values

    def initial(self, n, st):
        d = self.u.globals.get(n)
        if d is None or type(d.type).__name__ == "ArrayDecl":
            return None
        return 0 if d.init is None else self.u.const_eval(d.init)

    def reset_code(self, st):
        st.g["code_alloc"] = 0
        st.mem = {k: v for k, v in st.mem.items() if base_of(k[1]) != ("arr", "code")}
        st.trace = 0

    def fork(self):
        g = Gen.__new__(Gen)
        g.__dict__.update(self.__dict__)
        g.leaves = dict(self.leaves)
        g.st = self.st.copy()
        h = dict(self.it.h)
        h["init_ident"] = g.h_ident
        h["codegen_rvalue"] = g.h_rvalue
        h["codegen_lvalue"] = g.h_lvalue
        h["codegen_statement"] = g.h_statement
        h["value_type"] = g.h_type
        it = Interp(self.u, handlers=h, on_store=code_store, max_paths=5000, recurse=self.it.recurse)
        it.funcs_seen = self.it.funcs_seen
        g.it = it
        return g

    # ---- contracts of the recursive calls
    def h_ident(self, it, st, args, node):
        t = args[1][1] if isinstance(args[1], tuple) and args[1][0] == "s" else repr(args[1])
        return [(self.ident(t), st)]

    def ident(self, text):
        if text not in self.idents:
            self.idents[text] = 700000 + 16 * len(self.idents)
        return self.idents[text]

    def h_rvalue(self, it, st, args, node):
        l = self.leaves.get(args[0])
        if l is None:
            return NotImplemented
        pseudo(st, "rv", l["name"], st.g["cgc_fs"])
        st.g["cgc_fs"] = t_add(st.g["cgc_fs"], 1)
        return [(None, st)]

    def h_lvalue(self, it, st, args, node):
        l = self.leaves.get(args[0])
        if l is None:
            return NotImplemented
        pseudo(st, "lv", l["name"], st.g["cgc_fs"])
        st.g["cgc_fs"] = t_add(st.g["cgc_fs"], 1)
        return [(l["width"], st)]

    def h_statement(self, it, st, args, node):
        l = self.leaves.get(args[0])
        if l is None or l.get("expr"):
            return NotImplemented
        pseudo(st, "st", l["name"], st.g["cgc_fs"])
        return [(None, st)]

    def h_type(self, it, st, args, node):
        l = self.leaves.get(args[0])
        if l is None or l.get("type") is None:
            return NotImplemented
        return [(l["type"], st)]

    # ---- construction (always through the code's own constructors)
    def call(self, name, *args):
        self.u.require(name)
        rs = self.it.call(name, list(args), self.st)
        if len(rs) != 1:
            raise Broken("%s%r is not deterministic on concrete arguments (%d paths)" % (name, args, len(rs)))
        v, self.st = rs[0]
        return v

    def op(self, name):
        if len(name) == 1:
            return ord(name)
        self.u.require_const(name)
        return self.u.consts[name]

    def node(self, op, *ch):
        o = self.op(op) if isinstance(op, str) else op
        return self.call("new_ast%d" % len(ch), o, *ch)

    def atom(self, op, val):
        return self.call("new_ast0", self.op(op), val)

    def leaf(self, name, type=None, width=None, exclude=()):
        a = self.call("alloc_obj", 6)
        o = ("v", "op." + name)
        self.st.cons[((o, 1),)] = Dom(0, 4 * 1024 + 1023)
        self.st.mem[("m", t_add(("arr", "heap"), a))] = o
        for x in exclude:
            self.st.assume("!=", ("o", "&", o, 1023), self.op(x))
        if width is None and type is not None:
            width = self.width(type)
        self.leaves[a] = {"name": name, "type": type, "width": width}
        return a

    def ident_node(self, text):
        return self.atom("IDENTIFIER", self.ident(text))

    def list(self, *xs):
        r = 0
        for x in reversed(xs):
            r = self.node("LIST", x, r)
        return r

    # ---- types
    def basic(self, kw, unsigned=False):
        k = (kw, unsigned)
        if k not in self.types:
            self.types[k] = None
        return self.atom(kw, self.unsigned if unsigned else 0)

    def ptr(self, t):
        return self.node("*", 0, t)

    def arr(self, t, n):
        return self.node("[", t, n)

    def func(self, ret, params=0):
        return self.node("(", ret, params, 0)

    def decl(self, name, type, init=0):
        return self.node("DECL", self.ident_node(name) if name else 0, type, init)

    def struct(self, tag, members, kw="STRUCT_KW"):
        return self.node(kw, 0, self.ident_node(tag) if tag else 0, self.list(*members))

    def width(self, t):
        s = self.st
        r = self.it.call("type_width", [t, 1, 0], s.copy())
        if len(r) != 1:
            raise Broken("type_width is not deterministic")
        return r[0][0]

    # ---- bindings
    def local(self, name, type, words=1, kind="local"):
        off = ("v", "OFF." + name)
        fs = self.st.g["cgc_fs"]
        if kind == "local":
            self.st.g["cgc_fs"] = t_add(off, -words)
            self.call("cgc_add_local_var", self.ident(name), words, type)
        else:
            self.st.g["cgc_fs"] = off
            self.call("cgc_add_local_param", self.ident(name), words, type)
        self.st.g["cgc_fs"] = fs
        return off

    def glob(self, name, type, size):
        off = ("v", "GOFF." + name)
        a = self.st.g["cgc_global_alloc"]
        self.st.g["cgc_global_alloc"] = off
        self.call("cgc_add_global", self.ident(name), size, type, 0)
        self.st.g["cgc_global_alloc"] = a
        return off

    def fun(self, name, type):
        self.st.n += 1
        lbl = LABEL0 + 5000 + self.st.n
        self.call("cgc_add_global_fun", self.ident(name), lbl, type)
        return lbl

    # ---- running the generator
    def run(self, fname, *args, start=None):
        st = (start or self.st).copy()
        n = len(self.it.deaths)
        rs = self.it.call(fname, list(args), st)
        dead = self.it.deaths[n:]
        return [Frag(s, v) for v, s in rs], dead


# ------------------------------------------------------------------ machine-code graph
CLOB = [AX, CX, DX, SP + 1, SP + 2, SP + 3] + list(range(8, 16))


def canon(cc, f, W):
    """(predicate, positive?) for condition code cc on flags f."""
    if f is None:
        raise BadCode("conditional jump on undefined flags")
    kind, x, y, w = f
    if w != W:
        raise BadCode("comparison of %d-byte operands" % w)
    if kind == "test":
        if x != y or cc not in ("e", "ne"):
            raise BadCode("test of two different registers")
        y = 0
    return pred(cc, x, y)


def pred(cc, x, y):
    if cc in ("e", "ne"):
        if is_int(x) and is_int(y):
            return (None, (x == y) == (cc == "e"))
        if is_int(x):
            x, y = y, x
        if y == 0:
            return (("nz", x), cc == "ne")
        a, b = sorted((x, y), key=repr)
        return (("eq", a, b), cc == "e")
    t = {"l": ("lt", 0, 1), "g": ("lt", 1, 1), "ge": ("lt", 0, 0), "le": ("lt", 1, 0),
         "b": ("ult", 0, 1), "a": ("ult", 1, 1), "ae": ("ult", 0, 0), "be": ("ult", 1, 0)}.get(cc)
    if t is None:
        raise BadCode("condition %s is not a comparison" % cc)
    nm, sw, pos = t
    if sw:
        x, y = y, x
    if is_int(x) and is_int(y) and (nm == "lt" or (x >= 0 and y >= 0)):
        return (None, (x < y) == bool(pos))
    return ((nm, x, y), bool(pos))


class Code(Machine):
    """Lazily decoded machine code of one code-generator path."""

    def __init__(self, gen, frag, nargs=0):
        self.gen, self.frag = gen, frag
        self.cells = frag.bytes()
        self.cache = {}
        Machine.__init__(self, [], frag.labels, gen.mode, frag.n)
        self.nargs = nargs
        self.frame_errors = []
        self.seen_pc = set()
        self.image = False  # a whole program: calls within it return

    def at(self, pc):
        if pc not in self.cache:
            d = Decoder(self.cells, self.mode)
            d.i = pc
            ins = d.decode_one()
            self.cache[pc] = ins if isinstance(ins[0], int) and isinstance(ins[1], int) and not isinstance(ins[2], int) else (pc, d.i) + tuple(ins)
        return self.cache[pc]

    def string_at(self, pc):
        out = []
        while pc < len(self.cells) and self.cells[pc] != 0:
            out.append(self.cells[pc])
            pc += 1
        return tuple(out) if pc < len(self.cells) else None

    def frame(self, m, fs, what):
        depth = t_add(SP0, m.r[SP], -1)
        want = t_scale(t_add(fs, FS0, -1), self.W)
        if depth != want:
            self.frame_errors.append("%s: the code generator believes the frame is %s bytes deeper than on entry, at run time it is %s" % (what, want, depth))

    def clobber(self, m):
        for r in range(16):
            if r in (SP, BX, 5):
                continue
            m.r[r] = ("v", "clob." + REGS[r])
        m.flags = None
        m.mem = {k: v for k, v in m.mem.items() if is_temp(k[0]) and not self.below(m, k[0])}

    def step(self, m, ins):
        sp = m.r[SP]
        r = Machine.step(self, m, ins)
        d = t_add(m.r[SP], sp, -1)
        if is_int(d) and d > 0:
            m.mem = {k: v for k, v in m.mem.items() if not self.below(m, k[0])}
        return r

    def below(self, m, addr):
        """Slots under the stack pointer are overwritten by whatever runs next."""
        d = t_add(addr, m.r[SP], -1)
        return is_int(d) and d < 0

    def advance(self, m):
        """Run to the next visible action."""
        idle = set()
        for n in range(20000):
            if n > 200:
                k = self.key(m)
                if k in idle:
                    return ("diverge", m)
                idle.add(k)
            if m.pc == self.end:
                self.frame(m, self.frag.st.g["cgc_fs"], "end")
                return ("end", m)
            if is_int(m.pc) and not 0 <= m.pc < self.end:
                raise BadCode("control leaves the code at %r" % (m.pc,))
            ins = self.at(m.pc)
            self.seen_pc.add(m.pc)
            op, a = ins[2], ins[3:]
            if op == "pseudo":
                kind, name, fs = a[0], a[1], a[2]
                self.frame(m, fs, "evaluation of %s" % name if kind != "st" else "statement %s" % name)
                m = m.copy()
                m.pc = ins[1]
                self.clobber(m)
                if kind == "rv":
                    self.push(m, ("v", "val." + name))
                elif kind == "lv":
                    self.push(m, ("v", "addr." + name))
                return ("ev", (kind, name), m)
            if op == "jcc":
                p, pos = canon(a[0], m.flags, self.W)
                t = self.target(a[1], ins[1])
                if t[0] != "in":
                    raise BadCode("conditional jump to an undefined label %r" % (t[1],))
                if p is None:
                    m = m.copy()
                    m.pc = t[1] if pos else ins[1]
                    continue
                mt, mf = m.copy(), m.copy()
                mt.pc, mf.pc = t[1], ins[1]
                return ("br", p, mt, mf) if pos else ("br", p, mf, mt)
            if op == "store":
                base, disp, src, w = a
                addr = t_add(m.r[base], disp)
                if is_temp(addr):
                    m = m.copy()
                    if lin_parts(t_add(addr, m.r[SP], -1))[0] < 0:
                        raise BadCode("writes below the stack pointer")
                    self.step(m, ins)
                    continue
                m = m.copy()
                v = m.r[src]
                self.step(m, ins)
                return ("ev", ("store", addr, w, v), m)
            if op in ("call", "call_r"):
                if op == "call":
                    t = self.target(a[0], ins[1])
                else:
                    t = ("ext", m.r[a[0]])
                if t[0] == "in":
                    m = m.copy()
                    s = None if self.image else self.string_at(ins[1])
                    self.push(m, ("strptr", s) if s is not None else t_add(CODE0, ins[1]))
                    m.pc = t[1]
                    # the bytes between the call and its target are data
                    if s is not None and ins[1] + len(s) + 1 != t[1]:
                        m.r[SP] = m.r[SP]
                        self.store(m, m.r[SP], self.W, ("data", tuple(self.cells[ins[1]:t[1]])))
                    elif s is not None:
                        self.store(m, m.r[SP], self.W, ("data", tuple(self.cells[ins[1]:t[1]])))
                    continue
                m = m.copy()
                args = self.arguments(m)
                self.clobber(m)
                m.r[AX] = ("v", "result")
                m.pc = ins[1]
                return ("ev", ("call", t[1], tuple(args)), m)
            if op in ("int", "syscall"):
                m = m.copy()
                self.step(m, ins)
                return ("ev", m.trace[-1], m)
            if op == "jmp":
                t = self.target(a[0], ins[1])
                m = m.copy()
                if t[0] == "in":
                    m.pc = t[1]
                    continue
                return ("jump", t[1], m)
            if op == "ret":
                m = m.copy()
                at_sp = m.r[SP]
                if self.image:
                    k = t_add(self.load(m, at_sp, self.W, "none"), CODE0, -1)
                    if is_int(k):
                        m.pc = k
                        m.r[SP] = t_add(at_sp, self.W)
                        m.mem = {q: v for q, v in m.mem.items() if not self.below(m, q[0])}
                        continue
                return ("ret", m.r[AX], at_sp, m)
            m = m.copy()
            r = self.step(m, ins)
            if r is not None:
                raise BadCode("unexpected control transfer %s" % (op,))
        raise BadCode("no visible action within 20000 instructions")

    def arguments(self, m):
        """What the stack holds at a call: a number of words, or a layout of ("w", offset) and ("b", offset, bytes)."""
        lay = [("w", i * self.W) for i in range(self.nargs)] if is_int(self.nargs) else self.nargs
        out = []
        for x in lay:
            if x[0] == "w":
                out.append(self.load(m, t_add(m.r[SP], x[1]), self.W, "none"))
            else:
                out.append(("bytes",) + tuple(self.mem_bytes(m, t_add(m.r[SP], x[1]), x[2])))
        return out

    def mem_bytes(self, m, addr, n):
        """The bytes of memory at addr, each named by where it comes from."""
        out = []
        for k in range(n):
            at = t_add(addr, k)
            r = ("mem", at)
            for (a, w), v in m.mem.items():
                d = t_add(at, a, -1)
                if is_int(d) and 0 <= d < w:
                    if is_int(v):
                        r = (v >> (8 * d)) & 255
                    elif v[0] == "o" and v[1] == "ld" and d < v[3]:
                        r = ("mem", t_add(v[2], d))
                    elif v[0] == "o" and v[1] == "ext" and d < v[3] and is_int(v[4]) is False and v[4][:2] == ("o", "ld"):
                        r = ("mem", t_add(v[4][2], d))
                    elif v[0] == "o" and v[1] == "lowbyte":
                        r = v[3] if d == 0 else ("byte", v[2], d)
                    else:
                        r = ("byte", v, d)
            out.append(r)
        return out

    def key(self, m):
        live = tuple(sorted(((repr(k), repr(v)) for k, v in m.mem.items())))
        return (m.pc, repr(m.r), live, repr(m.flags))

    def initial(self):
        return M()


# ------------------------------------------------------------------ reference graphs
class Ref:
    """Reference control-flow graph built from continuation closures."""

    def __init__(self):
        self.n = []

    def ev(self, label, k):
        self.n.append(("ev", label, k))
        return len(self.n) - 1

    def br(self, p, t, f):
        if p is None:
            return t
        self.n.append(("br", p, t, f))
        return len(self.n) - 1

    def test(self, cc, x, y, t, f):
        p, pos = pred(cc, x, y)
        if p is None:
            return t if pos else f
        return self.br(p, t, f) if pos else self.br(p, f, t)

    def end(self, *what):
        self.n.append(("fin",) + what)
        return len(self.n) - 1

    def hole(self):
        self.n.append(None)
        return len(self.n) - 1

    def fill(self, h, target):
        self.n[h] = ("goto", target)

    def get(self, i):
        seen = 0
        while self.n[i] is not None and self.n[i][0] == "goto":
            i = self.n[i][1]
            seen += 1
            if seen > 1000:
                return i, ("diverge",)
        return i, self.n[i]


def mentions(t, names):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "v":
            return t[1] in names
        if t and t[0] == "o" and t[1] == "ld":
            return True
        return any(mentions(x, names) for x in t)
    return False


def subst(t, v, c):
    """Term t with the atom v replaced by the constant c."""
    if t == v:
        return c
    if isinstance(t, tuple):
        if t[0] == "lin":
            r = t[1]
            for a, k in t[2]:
                r = t_add(r, subst(a, v, c), k)
            return r
        if t[0] == "o" and len(t) == 4:
            x, y = subst(t[2], v, c), subst(t[3], v, c)
            return t if (x, y) == t[2:] else t_bin(t[1], x, y)
        if t[0] in ("v", "strptr", "data"):
            return t
        return tuple(subst(x, v, c) if isinstance(x, tuple) else x for x in t)
    return t


def assume(m, p, val):
    """Machine state m under the fact that predicate p has truth value val."""
    if p[0] == "nz" and not val and isinstance(p[1], tuple) and p[1][0] == "v":
        m = m.copy()
        for i, x in list(m.r.items()):
            m.r[i] = subst(x, p[1], 0)
        m.mem = {k: subst(x, p[1], 0) for k, x in m.mem.items()}
        if m.flags is not None:
            m.flags = (m.flags[0], subst(m.flags[1], p[1], 0), subst(m.flags[2], p[1], 0), m.flags[3])
    return m


def compare(code, ref, entry, final, m0=None, limit=20000, depth=None):
    """Product walk of machine code and reference graph, path by path under the facts
    established by the branches of either side.  `final(node, kind, m)` returns None or a
    message for matching terminal actions.  Returns the first disagreement or None."""
    start = m0 or code.initial()
    seen = set()
    work = [(start, entry, (), ())]

    def branch(p, side, facts, arms, path, push):
        """Follow a branch on p taken by one side (1 reference, 2 code)."""
        for f in facts:
            if f[0] == p:
                fs = tuple((q, v, k | side) if q == p else (q, v, k) for q, v, k in facts)
                push(f[1], arms[f[1]], fs, path)
                return
        for val in (False, True):
            if implied(p, val, facts):
                continue
            fs = tuple(sorted(facts + ((p, val, side),), key=repr))
            push(val, arms[val], fs, path + (p if val else ("not", p),))

    while work:
        m, r, facts, path = work.pop()
        if depth is not None:
            depth[0] = len(path)
        r, rn = ref.get(r)
        k = (code.key(m), r, facts)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            return "the machine code does not settle (stack depth or registers keep changing around a loop)"
        if rn[0] == "br":
            branch(rn[1], 1, facts, (rn[3], rn[2]), path,
                   lambda val, nxt, fs, pa: work.append((assume(m, rn[1], val), nxt, fs, pa)))
            continue
        a = code.advance(m)
        if a[0] == "br":
            branch(a[1], 2, facts, (a[3], a[2]), path,
                   lambda val, nxt, fs, pa: work.append((assume(nxt, a[1], val), r, fs, pa)))
            continue
        if rn[0] == "diverge" or a[0] == "diverge":
            if rn[0] != a[0]:
                return "after %s: expected %s, the code does %s" % (show(path), show_node(rn), show_node(a))
            continue
        if rn[0] == "fin":
            msg = final(rn, a[0], a)
            if msg:
                return "after %s: %s" % (show(path), msg)
            continue
        if a[0] != rn[0]:
            return "after %s: expected %s, the code does %s" % (show(path), show_node(rn), show_node(a))
        if not same(a[1], rn[1]):
            return "after %s: expected %s, the code does %s" % (show(path), show_node(rn), show_node(a))
        lab = rn[1]
        names = ("val." + lab[1], "addr." + lab[1]) if lab[0] in ("rv", "lv") else ()
        keep = []
        for f in facts:
            if mentions(f[0], names):
                continue
            # a fact the reference has used about a value the machine no longer holds is dead
            if f[2] & 1 and not holds(a[2], f[0]):
                continue
            keep.append(f)
        work.append((a[2], rn[2], tuple(keep), path + (lab,)))
    return None


def implied(p, val, facts):
    """val is impossible for p: x == c excludes x == c' for constants c != c'."""
    if p[0] == "nz":
        p, val = ("eq", 0, p[1]), not val
    if p[0] != "eq" or not val:
        return False
    x, c = eqpart(p)
    if x is None:
        return False
    for q, v, _ in facts:
        if q[0] == "nz":
            q, v = ("eq", 0, q[1]), not v
        if q[0] == "eq" and v:
            y, d = eqpart(q)
            if y == x and d != c:
                return True
    return False


def eqpart(p):
    if is_int(p[1]):
        return p[2], p[1]
    if is_int(p[2]):
        return p[1], p[2]
    return None, None


def holds(m, p):
    """Does the machine state still mention an unknown of predicate p?"""
    at = set(vatoms(p))
    for x in list(m.r.values()) + list(m.mem.values()) + ([m.flags] if m.flags else []):
        if at & set(vatoms(x)):
            return True
    return False


def vatoms(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "v":
            return [t]
        out = []
        for x in t:
            if isinstance(x, tuple):
                out += vatoms(x)
        return out
    return []


def same(a, b):
    if a == b:
        return True
    if a[0] == "store" and b[0] == "store" and a[1:3] == b[1:3]:
        return trunc_eq(a[3], b[3], a[2])
    return False


def trunc_eq(a, b, w):
    """Equal in the low w bytes."""
    def strip(t):
        while isinstance(t, tuple) and t[0] == "o" and t[1] == "ext" and t[3] >= w:
            t = t[4]
        if is_int(t):
            return t & ((1 << (8 * w)) - 1)
        return t
    return strip(a) == strip(b)


def fmt(t):
    if isinstance(t, tuple):
        if not t:
            return "()"
        if t[0] == "v":
            return t[1]
        if t[0] == "lin":
            return "+".join([str(t[1])] * (t[1] != 0) + ["%s%s" % ("" if k == 1 else "%d*" % k, fmt(a)) for a, k in t[2]])
        if t[0] == "o":
            return "%s(%s)" % (t[1], ", ".join(fmt(x) for x in t[2:]))
        return "(" + " ".join(fmt(x) for x in t) + ")"
    return str(t)


def show(path):
    return "[" + "; ".join(fmt(p) for p in path[-6:]) + "]"


def show_node(n):
    if n[0] == "ev":
        return fmt(n[1])
    if n[0] == "br":
        return "branch on " + fmt(n[1])
    if n[0] == "fin":
        return "finish " + fmt(tuple(x for x in n[1:]))
    if n[0] in ("jump", "ret"):
        return "%s %s" % (n[0], fmt(n[1]))
    return n[0]


def top(code, m):
    return code.load(m, m.r[SP], code.W, "none")
