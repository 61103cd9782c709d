"""Native back end harness: abstract interpretation of exe.c/x86.c code
generators down to the bytes stored in the code buffer, then decoding with the
independent decoder and evaluation on an abstract x86 machine."""
from frontend import Broken, unit
from absint import Interp, State, t_add, t_bin, t_scale, is_int, lin_parts, base_of
from x86dec import Decoder, byte_of, BadCode, REGS

AX, CX, DX, BX, SP, BP, SI, DI = range(8)


def word(u):
    f = " ".join(u.flags)
    return 4 if "i386" in f else 8


def mode(u):
    return 32 if word(u) == 4 else 64


class Frag:
    """One path of a code generator: its code and label placements."""

    def __init__(self, st, ret):
        self.st, self.ret = st, ret
        n = st.g.get("code_alloc")
        if not is_int(n):
            raise Broken("code buffer position is not statically known (%r)" % (n,))
        self.n = n
        arr = ("arr", "code")
        self.cells = []
        for i in range(n):
            a = ("m", t_add(arr, i))
            if a not in st.mem:
                raise Broken("hole in the code buffer at %d" % i)
            self.cells.append(st.mem[a])
        self.events = st.events()
        self.labels = {}
        for e in self.events:
            if e[0] == "def":
                self.labels.setdefault(e[1], []).append(e[2])

    def bytes(self):
        out = []
        for c in self.cells:
            if isinstance(c, tuple) and c[0] == "o" and c[1] in ("pseudo", "rel32"):
                out.append((c[1],) + c[2:])
            elif isinstance(c, tuple) and c[0] == "o" and c[1] == "pad":
                out.append(("pad",))
            else:
                out.append(byte_of(c))
        return out

    def decode(self, m):
        return Decoder(self.bytes(), m).all()


def put(st, v):
    n = st.g["code_alloc"]
    st.mem[("m", t_add(("arr", "code"), n))] = v
    st.g["code_alloc"] = n + 1


def h_use_label(it, st, args, node):
    n = st.g["code_alloc"]
    put(st, ("o", "rel32", args[0]))
    for _ in range(3):
        put(st, ("o", "pad", 0))
    return [(None, st)]


def h_def_label(it, st, args, node):
    st.emit("def", args[0], st.g["code_alloc"])
    return [(None, st)]


def h_alloc_label(it, st, args, node):
    v = st.fresh("label")
    return [(v, st)]


h_use_label.mods = frozenset(["code_alloc"])


def pseudo(st, *what):
    put(st, ("o", "pseudo") + what)


BASE_HANDLERS = {
    "use_label": h_use_label,
    "def_label": h_def_label,
    "alloc_label": h_alloc_label,
    "alloc_label_": h_alloc_label,
    "alloc_goto_label": h_alloc_label,
}


def code_store(addr, v, st, node):
    if base_of(addr) == ("arr", "code"):
        st.mem[("m", addr)] = v
        return [st]
    return None


def gen(u, fname, args, handlers=None, pre=None, **kw):
    u.require(fname)
    h = dict(BASE_HANDLERS)
    h.update(handlers or {})
    it = Interp(u, handlers=h, on_store=code_store, **kw)
    st = State()
    st.g["code_alloc"] = 0
    if pre:
        pre(st)
    rs = it.call(fname, list(args), st)
    return [Frag(s, v) for v, s in rs], it


# ------------------------------------------------------------------ machine
CODE0 = ("v", "CODE0")
SP0 = ("v", "SP0")


class M:
    __slots__ = ("r", "mem", "flags", "pc", "trace", "conds", "steps", "mn", "ints")

    def __init__(self):
        self.r = {i: ("v", "R0." + REGS[i]) for i in range(16)}
        self.r[SP] = SP0
        self.mem = {}
        self.flags = None
        self.pc = 0
        self.trace = []
        self.conds = []
        self.steps = 0
        self.ints = 0

    def copy(self):
        m = M.__new__(M)
        m.r, m.mem, m.flags, m.pc = dict(self.r), dict(self.mem), self.flags, self.pc
        m.trace, m.conds, m.steps, m.ints = list(self.trace), list(self.conds), self.steps, self.ints
        return m


def is_stack(a):
    return SP0 in lin_parts(a)[1]


def is_temp(a):
    """A slot below the stack pointer on entry (a temporary of this fragment)."""
    c, d = lin_parts(a)
    return d == {SP0: 1} and c < 0


class Machine:
    def __init__(self, ins, labels, mode, end, on_call=None, on_pseudo=None, on_sys=None):
        self.by = {i[0]: i for i in ins}
        self.labels, self.mode, self.end = labels, mode, end
        self.W = mode // 8
        self.on_call, self.on_pseudo, self.on_sys = on_call, on_pseudo, on_sys

    def load(self, m, addr, w, ext):
        best = None
        for (a, ww), v in m.mem.items():
            if a == addr and ww >= w:
                best = v if w == self.W else ("o", "ext", ext, w, v)
            else:
                d = t_add(a, addr, -1)
                if is_int(d) and -ww < d < w:
                    return ("o", "ldpart", addr, w, ext, len(m.mem))
        if best is not None:
            return best
        return ("o", "ld", addr, w, ext)

    def store(self, m, addr, w, v):
        t1 = is_temp(addr)
        for k in list(m.mem):
            a, ww = k
            d = t_add(a, addr, -1)
            if is_int(d):
                if -ww < d < w:
                    del m.mem[k]
            elif not t1 and not is_temp(a):
                del m.mem[k]
        m.mem[(addr, w)] = v

    def push(self, m, v):
        m.r[SP] = t_add(m.r[SP], -self.W)
        self.store(m, m.r[SP], self.W, v)

    def pop(self, m):
        v = self.load(m, m.r[SP], self.W, "none")
        m.r[SP] = t_add(m.r[SP], self.W)
        return v

    def operand(self, m, o, end):
        if o[0] == "r":
            return m.r[o[1]]
        if o[0] == "i":
            v = o[1]
            if isinstance(v, tuple) and v and v[0] == "rel32":
                return t_add(("v", "addr:%r" % (v[1],)), t_add(CODE0, end), -1)
            return v
        if o[0] == "cl":
            return m.r[CX]
        raise BadCode("operand %r" % (o,))

    def target(self, rel, end):
        if isinstance(rel, tuple) and rel and rel[0] == "rel32":
            lbl = rel[1]
            pos = self.labels.get(lbl)
            if pos is None:
                return ("ext", lbl)
            if len(pos) != 1:
                raise BadCode("label %r defined %d times" % (lbl, len(pos)))
            return ("in", pos[0])
        if is_int(rel):
            return ("in", end + rel)
        return ("ext", rel)

    def run(self, m0=None, start=0, limit=3000):
        m0 = m0 or M()
        m0.pc = start
        work, outs = [m0], []
        while work:
            m = work.pop()
            while True:
                m.steps += 1
                if m.steps > limit:
                    m.trace.append(("limit",))
                    outs.append(("limit", m)); break
                if m.pc == self.end:
                    outs.append(("end", m)); break
                ins = self.by.get(m.pc)
                if ins is None:
                    raise BadCode("control reaches %d which is not an instruction boundary" % m.pc)
                nxt = self.step(m, ins)
                if nxt is None:
                    continue
                kind = nxt[0]
                if kind == "fork":
                    work.extend(nxt[1]); break
                outs.append((kind, m)); break
        return outs

    def alu(self, m, dst, v, w):
        if w == self.W:
            m.r[dst] = v
        elif w == 4:
            m.r[dst] = ("o", "zext32", v)
        else:
            m.r[dst] = ("o", "part", w, m.r[dst], v)

    def step(self, m, ins):
        s, e, op = ins[0], ins[1], ins[2]
        a = ins[3:]
        m.pc = e
        if op == "pseudo":
            if self.on_pseudo is None:
                raise BadCode("pseudo instruction %r" % (a,))
            return self.on_pseudo(self, m, a, e)
        if op in ("add", "sub"):
            m.flags = None
            v = t_add(m.r[a[0]], self.operand(m, a[1], e), 1 if op == "add" else -1)
            self.alu(m, a[0], v, a[2])
        elif op in ("or", "and", "xor"):
            x, y = m.r[a[0]], self.operand(m, a[1], e)
            sym = {"or": "|", "and": "&", "xor": "^"}[op]
            if op == "xor" and x == y:
                v = 0
            elif op in ("or", "and") and x == y:
                v = x
            else:
                v = t_bin(sym, x, y)
            m.flags = None
            self.alu(m, a[0], v, a[2])
        elif op == "imul":
            self.alu(m, a[0], t_bin("*", m.r[a[0]], self.operand(m, a[1], e)), a[2])
            m.flags = None
        elif op in ("mov", "mov_zx"):
            v = self.operand(m, a[1], e)
            self.alu(m, a[0], v, a[2])
        elif op == "xchg":
            m.r[a[0]], m.r[a[1][1]] = m.r[a[1][1]], m.r[a[0]]
        elif op == "neg":
            self.alu(m, a[0], t_scale(m.r[a[0]], -1), a[1]); m.flags = None
        elif op == "not":
            self.alu(m, a[0], t_add(t_scale(m.r[a[0]], -1), -1), a[1]); m.flags = None
        elif op in ("cmp", "test"):
            m.flags = (op, m.r[a[0]], self.operand(m, a[1], e), a[2])
        elif op == "cdq":
            if a[0] != self.W:
                raise BadCode("sign extension of the wrong width")
            m.r[DX] = ("o", "signof", m.r[AX])
        elif op in ("idiv", "div"):
            x, y, d = m.r[AX], m.r[a[0]], m.r[DX]
            if a[1] != self.W:
                raise BadCode("division of the wrong width")
            if op == "idiv":
                if d != ("o", "signof", x):
                    raise BadCode("idiv without sign extension of the dividend")
                q, r = t_bin("/", x, y), t_bin("%", x, y)
            else:
                if d != 0:
                    raise BadCode("div with a non-zero upper half")
                q, r = ("o", "u/", x, y), ("o", "u%", x, y)
            m.r[AX], m.r[DX] = q, r
            m.flags = None
        elif op in ("shl", "sal", "shr", "sar"):
            cnt = self.operand(m, a[1], e)
            x = m.r[a[0]]
            if op in ("shl", "sal"):
                v = t_scale(x, 1 << cnt) if is_int(cnt) and 0 <= cnt < 31 else t_bin("<<", x, cnt)
            elif op == "sar":
                v = t_bin(">>", x, cnt)
            else:
                v = ("o", "u>>", x, cnt)
            m.flags = None
            self.alu(m, a[0], v, a[2])
        elif op == "push":
            self.push(m, m.r[a[0]])
        elif op == "push_i":
            self.push(m, a[0])
        elif op == "pop":
            v = self.pop(m)
            m.r[a[0]] = v
        elif op == "load":
            dst, base, disp, w, ext = a
            v = self.load(m, t_add(m.r[base], disp), w, ext)
            m.r[dst] = v
        elif op == "store":
            base, disp, src, w = a
            addr = t_add(m.r[base], disp)
            m.trace.append(("store", addr, w, m.r[src]))
            self.store(m, addr, w, m.r[src])
        elif op == "jmp":
            t = self.target(a[0], e)
            if t[0] == "in":
                m.pc = t[1]
            else:
                m.trace.append(("jmp", t[1]))
                return ("jump", t[1])
        elif op == "jcc":
            t = self.target(a[1], e)
            f = m.flags
            m2 = m.copy()
            m.conds.append((a[0], f, True))
            m2.conds.append((a[0], f, False))
            dec = self.decide(a[0], f)
            res = []
            if dec is not False:
                if t[0] == "in":
                    m.pc = t[1]
                    res.append(m)
                else:
                    m.trace.append(("jcc", a[0], t[1]))
                    m.pc = ("ext", t[1])
                    res.append(m)
            if dec is not True:
                res.append(m2)
            if any(isinstance(x.pc, tuple) for x in res):
                raise BadCode("conditional jump to an external label")
            return ("fork", res)
        elif op == "call":
            t = self.target(a[0], e)
            ret = t_add(CODE0, e)
            if t[0] == "in":
                self.push(m, ret)
                m.pc = t[1]
            elif self.on_call is not None:
                return self.on_call(self, m, t[1], e)
            else:
                m.trace.append(("call", t[1]))
                m.r[AX] = ("o", "callret", repr(t[1]), len(m.trace))
        elif op == "call_r":
            if self.on_call is not None:
                return self.on_call(self, m, ("reg", m.r[a[0]]), e)
            m.trace.append(("call_r", m.r[a[0]]))
        elif op == "ret":
            v = self.pop(m)
            if is_int(v) or not (isinstance(v, tuple) and v == CODE0 or CODE0 in lin_parts(v)[1]):
                m.trace.append(("ret", v))
                return ("ret", v)
            c, d = lin_parts(v)
            if d == {CODE0: 1}:
                m.pc = c
            else:
                m.trace.append(("ret", v))
                return ("ret", v)
        elif op in ("int", "syscall"):
            regs = dict(m.r)
            m.ints += 1
            m.trace.append(("sys", op if op == "syscall" else "int%x" % a[0], tuple(sorted(regs.items()))))
            m.r[AX] = ("o", "sysret", m.ints)
            if op == "syscall":
                m.r[CX] = ("v", "clobber.cx%d" % m.ints)
                m.r[11] = ("v", "clobber.r11%d" % m.ints)
            m.flags = None
        elif op == "nop":
            pass
        elif op == "movx" or op == "movsxd":
            raise BadCode("unexpected register extension " + op)
        elif op == "store_highbyte":
            raise BadCode("byte store encodes a high-byte register (ah/ch/dh/bh)")
        else:
            raise BadCode("instruction %s is not expected in generated code" % op)
        return None

    def decide(self, cc, f):
        if f is None:
            raise BadCode("conditional jump on undefined flags")
        kind, x, y, w = f
        if w != self.W:
            raise BadCode("comparison of the wrong width")
        if kind == "cmp" and is_int(x) and is_int(y):
            U = (1 << (8 * self.W)) - 1
            ux, uy = x & U, y & U
            return {"e": x == y, "ne": x != y, "l": x < y, "ge": x >= y, "le": x <= y, "g": x > y,
                    "b": ux < uy, "ae": ux >= uy, "be": ux <= uy, "a": ux > uy}.get(cc)
        return None
