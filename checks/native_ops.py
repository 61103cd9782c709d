"""Native operators: for every C operator and every combination of operand types, the machine code
generated for the operator computes the operator."""
from frontend import unit, Broken, loc
from absint import t_add, t_bin, t_scale, is_int
from native import SP0, BadCode, SP
from cgen import *

A, B, C = ("v", "val.a"), ("v", "val.b"), ("v", "val.c")


class T:
    """A C type as the specification sees it."""

    def __init__(self, name, kind, width, signed=True, target=None, kw=None):
        self.name, self.kind, self.width, self.signed, self.target, self.kw = name, kind, width, signed, target, kw

    def make(self, g):
        if self.kind == "num":
            return g.basic(self.kw, not self.signed)
        if self.kind == "enum":
            return g.node("ENUM_KW", 0, g.ident_node("E"), 0)
        if self.kind == "ptr":
            return g.ptr(self.target.make(g))
        if self.kind == "arr":
            return g.arr(self.target.make(g), self.n)
        if self.kind == "void":
            return g.basic("VOID_KW")
        if self.kind in ("struct", "union"):
            return g.struct(self.name.replace(" ", "_"), [g.decl(n, t.make(g)) for n, t in self.members],
                            "STRUCT_KW" if self.kind == "struct" else "UNION_KW")
        raise Broken(self.kind)

    def ext(self, W):
        if self.kind == "ptr" or self.width == W:
            return "none"
        return "sx" if self.signed else "zx"


def numeric(W):
    l = [T("char", "num", 1, True, kw="CHAR_KW"), T("unsigned char", "num", 1, False, kw="CHAR_KW"),
         T("short", "num", 2, True, kw="SHORT_KW"), T("unsigned short", "num", 2, False, kw="SHORT_KW"),
         T("int", "num", 4, True, kw="INT_KW"), T("unsigned int", "num", 4, False, kw="INT_KW")]
    if W == 8:
        l += [T("long", "num", 8, True, kw="LONG_KW"), T("unsigned long", "num", 8, False, kw="LONG_KW")]
    return l


def agg(name, kind, members, width):
    t = T(name, kind, width)
    t.members = members
    return t


def array(t, n):
    a = T("%s[%d]" % (t.name, n), "arr", t.width * n, target=t)
    a.n = n
    return a


def pointers(W):
    n = numeric(W)
    s = agg("S12", "struct", [("x", n[4]), ("y", n[4]), ("z", n[4])], 12)
    s8 = agg("S8", "struct", [("x", n[4]), ("y", n[4])], 8)
    out = [T(t.name + " *", "ptr", W, target=t) for t in n]
    out.append(T("void *", "ptr", W, target=T("void", "void", 1)))
    out.append(T("struct S12 *", "ptr", W, target=s))
    out.append(T("struct S8 *", "ptr", W, target=s8))
    out.append(T("char **", "ptr", W, target=out[0]))
    return out


def promoted(t):
    if t.kind == "enum" or t.width < 4:
        return (4, True)
    return (t.width, t.signed)


def usual(a, b):
    (wa, sa), (wb, sb) = promoted(a), promoted(b)
    if wa == wb:
        return (wa, sa and sb)
    return (wa, sa) if wa > wb else (wb, sb)


def results(op, lt, rt, a, b):
    """Acceptable results: list of ("val", term) or ("cmp", cc); None: not a C operation."""
    lp, rp = lt.kind in ("ptr", "arr"), rt.kind in ("ptr", "arr")
    cmps = {"<": ("l", "b"), ">": ("g", "a"), "LT_EQ": ("le", "be"), "GT_EQ": ("ge", "ae")}
    if op in ("EQ_EQ", "EXCL_EQ"):
        return [("cmp", "e" if op == "EQ_EQ" else "ne")]
    if op in cmps:
        if lp or rp:
            return [("cmp", c) for c in cmps[op]] if lp and rp else None
        return [("cmp", cmps[op][0 if usual(lt, rt)[1] else 1])]
    if op == ",":
        return [("val", b)]
    if op == "+":
        if lp and rp:
            return None
        if lp:
            return [("val", t_add(a, t_scale(b, lt.target.width)))]
        if rp:
            return [("val", t_add(b, t_scale(a, rt.target.width)))]
        return [("val", t_add(a, b))]
    if op == "-":
        if lp and rp:
            if lt.target is not rt.target and lt.name != rt.name:
                return None
            w = lt.target.width
            d = t_add(a, b, -1)
            r = [("val", t_bin("/", d, w))] if w != 1 else [("val", d)]
            if w & (w - 1) == 0:
                r.append(("val", t_bin(">>", d, w.bit_length() - 1)))
            return r
        if lp:
            return [("val", t_add(a, t_scale(b, lt.target.width), -1))]
        if rp:
            return None
        return [("val", t_add(a, b, -1))]
    if lp or rp:
        return None
    if op == "*":
        return [("val", t_bin("*", a, b))]
    if op in ("/", "%"):
        return [("val", ("o", op if usual(lt, rt)[1] else "u" + op, a, b))]
    if op == "RSHIFT":
        return [("val", ("o", ">>" if promoted(lt)[1] else "u>>", a, b))]
    if op == "LSHIFT":
        return [("val", t_bin("<<", a, b))]
    if op in "&|^":
        return [("val", t_bin(op, a, b))]
    raise Broken(op)


BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "LSHIFT", "RSHIFT", "<", ">", "EQ_EQ", "EXCL_EQ", "LT_EQ", "GT_EQ", ","]
COMPOUND = {"PLUS_EQ": "+", "MINUS_EQ": "-", "STAR_EQ": "*", "SLASH_EQ": "/", "PERCENT_EQ": "%", "AMP_EQ": "&",
            "BAR_EQ": "|", "CARET_EQ": "^", "LSHIFT_EQ": "LSHIFT", "RSHIFT_EQ": "RSHIFT"}
TOKEN = {"LSHIFT": "<<", "RSHIFT": ">>", "EQ_EQ": "==", "EXCL_EQ": "!=", "LT_EQ": "<=", "GT_EQ": ">=", "PLUS_EQ": "+=",
         "MINUS_EQ": "-=", "STAR_EQ": "*=", "SLASH_EQ": "/=", "PERCENT_EQ": "%=", "AMP_EQ": "&=", "BAR_EQ": "|=",
         "CARET_EQ": "^=", "LSHIFT_EQ": "<<=", "RSHIFT_EQ": ">>=", "AMP_AMP": "&&", "BAR_BAR": "||"}


def fin_value(code, want):
    """End action leaves exactly one word more on the stack, holding `want`."""
    def chk(node, kind, a):
        if kind != "end":
            return "expected the value %s, the code does %s" % (fmt(want_of(node)), show_node(a))
        m = a[1]
        w = want_of(node)
        if t_add(m.r[SP], SP0, -1) != -code.W:
            return "the stack is %s bytes deeper, expected %d" % (fmt(t_add(SP0, m.r[SP], -1)), code.W)
        v = top(code, m)
        if w is not ANY and not any(val_same(code, v, x) for x in (w if isinstance(w, list) else [w])):
            return "leaves %s, expected %s" % (fmt(v), " or ".join(fmt(x) for x in (w if isinstance(w, list) else [w])))
        return None

    def want_of(node):
        return node[1] if len(node) > 1 else want
    return chk


ANY = object()


def val_same(code, a, b):
    return a == b


class Prover:
    """Runs one generated construct against its alternatives of reference graphs."""

    def __init__(self, r, g, want_frame):
        self.r, self.g, self.want_frame = r, g, want_frame

    def check(self, g, key, what, gen, refs, rule, final=None, nargs=0, allow_dead=False, fin_fs=None, where=None):
        r = self.r
        try:
            frags, dead = gen()
        except BadCode as e:
            frags, dead = [], []
            if not self.want_frame:
                r.ob(rule, False, key, where or "exe.c", "%s: %s" % (what, e))
            return
        if not frags:
            if not self.want_frame and not allow_dead:
                r.ob(rule, False, key, where or "exe.c", "%s is rejected (fatal error %s)" % (what, dead[0][1] if dead else ""))
            return
        for fr in frags:
            best, frame = None, []
            for ref, entry in refs:
                code = Code(g, fr, nargs)
                depth = [0]
                try:
                    msg = compare(code, ref, entry, (final or fin_value)(code, None), depth=depth)
                except BadCode as e:
                    msg = str(e)
                frame = code.frame_errors
                if msg is None:
                    best = None
                    break
                if best is None or depth[0] > best[0]:
                    best = (depth[0], msg)
            msg = best[1] if best else None
            if self.want_frame:
                r.ob(rule, not frame, key, where or "exe.c", "%s: %s" % (what, frame[0] if frame else ""),
                     {"config": g.cfg, "construct": what, "instructions": len(code.seen_pc)})
            else:
                r.ob(rule, msg is None, key, where or "exe.c", "%s: %s" % (what, msg),
                     {"config": g.cfg, "construct": what, "code bytes": fr.n, "instructions": len(code.seen_pc)})


def orders(rt, evs):
    """All orders of evaluation of independent operands."""
    import itertools
    return list(itertools.permutations(evs))


def ref_value(events, tail):
    """Reference: the events in some order, then tail(ref)->node."""
    out = []
    import itertools
    for p in itertools.permutations(events):
        ref = Ref()
        k = tail(ref)
        for e in reversed(p):
            k = ref.ev(e, k)
        out.append((ref, k))
    return out


def result_tail(res):
    def mk(ref):
        if res[0] == "val":
            return ref.end(res[1])
        return ref.test(res[1], A, B, ref.end(1), ref.end(0))
    return mk


def tkey(*ts):
    """Identity of an operand type combination, independent of the configuration."""
    return ",".join(t.name for t in ts)


def binary(p, g0, W):
    nums, ptrs = numeric(W), pointers(W)
    en = T("enum E", "enum", W)
    combos = [(x, y) for x in nums for y in nums]
    combos += [(en, nums[4]), (nums[4], en), (en, en)]
    combos += [(x, nums[4]) for x in ptrs] + [(nums[4], x) for x in ptrs] + [(x, x) for x in ptrs] + [(nums[1], ptrs[7]), (ptrs[7], nums[0])]
    for lt, rt in combos:
        g1 = g0.fork()
        a = g1.leaf("a", lt.make(g1), lt.width)
        b = g1.leaf("b", rt.make(g1), rt.width)
        for op in BIN:
            res = results(op, lt, rt, A, B)
            if res is None:
                continue
            g = g1.fork()
            n = g.node(op, a, b)
            refs = []
            for x in res:
                evs = [("rv", "a"), ("rv", "b")]
                if op == ",":
                    rr = Ref()
                    refs.append((rr, rr.ev(evs[0], rr.ev(evs[1], rr.end(B)))))
                else:
                    refs += ref_value(evs, result_tail(x))
            p.check(g, "%s:%s" % (TOKEN.get(op, op), tkey(lt, rt)), "(%s) %s (%s)" % (lt.name, TOKEN.get(op, op), rt.name),
                    lambda: g.run("codegen_rvalue", n), refs, "binary operators")


def ld(t, addr, W):
    w = W if t.kind == "ptr" else t.width
    return ("o", "ld", addr, w, t.ext(W))


def compound(p, g0, W):
    nums, ptrs = numeric(W), pointers(W)
    combos = [(x, y) for x in nums for y in nums] + [(x, nums[4]) for x in ptrs]
    ADDR = ("v", "addr.a")
    for lt, rt in combos:
        g1 = g0.fork()
        a = g1.leaf("a", lt.make(g1), lt.width)
        b = g1.leaf("b", rt.make(g1), rt.width)
        for op, base in COMPOUND.items():
            if lt.kind == "ptr" and base not in "+-":
                continue
            g = g1.fork()
            n = g.node(op, a, b)
            refs = []
            for x in results(base, lt, rt, ld(lt, ADDR, W), B):
                def tail(ref, x=x):
                    return ref.ev(("store", ADDR, lt.width if lt.kind != "ptr" else W, x[1]),
                                  ref.end([x[1], conv(lt, x[1], W)]))
                refs += ref_value([("lv", "a"), ("rv", "b")], tail)
            p.check(g, "%s:%s" % (TOKEN.get(op, op), tkey(lt, rt)), "(%s) %s (%s)" % (lt.name, TOKEN.get(op, op), rt.name),
                    lambda: g.run("codegen_rvalue", n), refs, "compound assignment")
    for lt in nums + ptrs:
        for op, base, post in (("PLUS_PLUS_PRE", "+", False), ("MINUS_MINUS_PRE", "-", False),
                               ("PLUS_PLUS_POST", "+", True), ("MINUS_MINUS_POST", "-", True)):
            g = g0.fork()
            a = g.leaf("a", lt.make(g), lt.width)
            n = g.node(op, a)
            old = ld(lt, ADDR, W)
            step = lt.target.width if lt.kind == "ptr" else 1
            new = t_add(old, step, 1 if base == "+" else -1)
            ref = Ref()
            e = ref.ev(("lv", "a"), ref.ev(("store", ADDR, W if lt.kind == "ptr" else lt.width, new),
                                           ref.end(old if post else [new, conv(lt, new, W)])))
            p.check(g, "%s:%s" % (op, lt.name), "%s on %s" % (op, lt.name), lambda: g.run("codegen_rvalue", n), [(ref, e)],
                    "increment and decrement")


def conv(t, v, W):
    """Value converted to type t and read back."""
    if t.kind == "ptr" or t.width == W:
        return v
    return ("o", "ext", t.ext(W), t.width, v)


def unary(p, g0, W):
    for lt in numeric(W):
        for op, want in (("-", t_scale(A, -1)), ("+", A), ("~", t_add(t_scale(A, -1), -1)), ("PARENS", A)):
            g = g0.fork()
            n = g.node(op, g.leaf("a", lt.make(g), lt.width))
            ref = Ref()
            alts = [want]
            if op == "~":
                alts += [t_bin("^", A, -1), t_bin("^", -1, A)]
            p.check(g, "unary%s:%s" % (op, lt.name), "%s (%s)" % (op, lt.name), lambda: g.run("codegen_rvalue", n),
                    [(ref, ref.ev(("rv", "a"), ref.end(alts)))], "unary operators")
    for lt in numeric(W) + pointers(W):
        g = g0.fork()
        n = g.node("!", g.leaf("a", lt.make(g), lt.width))
        ref = Ref()
        p.check(g, "unary!:%s" % lt.name, "! (%s)" % lt.name, lambda: g.run("codegen_rvalue", n),
                [(ref, ref.ev(("rv", "a"), ref.test("ne", A, 0, ref.end(0), ref.end(1))))], "unary operators")


def logical(p, g0, W):
    ts = numeric(W) + pointers(W)
    for lt, rt in [(x, ts[4]) for x in ts] + [(ts[4], x) for x in ts]:
        for op in ("AMP_AMP", "BAR_BAR"):
            g = g0.fork()
            n = g.node(op, g.leaf("a", lt.make(g), lt.width), g.leaf("b", rt.make(g), rt.width))
            ref = Ref()
            second = ref.ev(("rv", "b"), ref.test("ne", B, 0, ref.end(1), ref.end(0)))
            e = ref.ev(("rv", "a"), ref.test("ne", A, 0, second if op == "AMP_AMP" else ref.end(1),
                                             ref.end(0) if op == "AMP_AMP" else second))
            p.check(g, "%s:%s" % (TOKEN[op], tkey(lt, rt)), "(%s) %s (%s)" % (lt.name, TOKEN[op], rt.name),
                    lambda: g.run("codegen_rvalue", n), [(ref, e)], "logical operators")
    for lt in ts:
        for rt in (ts[4], ts[0], ts[-1]):
            g = g0.fork()
            n = g.node("?", g.leaf("a", lt.make(g), lt.width), g.leaf("b", rt.make(g), rt.width), g.leaf("c", rt.make(g), rt.width))
            ref = Ref()
            e = ref.ev(("rv", "a"), ref.test("ne", A, 0, ref.ev(("rv", "b"), ref.end(B)), ref.ev(("rv", "c"), ref.end(C))))
            p.check(g, "?::%s" % tkey(lt, rt), "(%s) ? (%s) : (%s)" % (lt.name, rt.name, rt.name),
                    lambda: g.run("codegen_rvalue", n), [(ref, e)], "conditional operator")


def explore(r, want_frame=False):
    tasks = []
    for cfg in ("i386", "x64"):
        for part in (binary, compound, unary, logical):
            def task(r, cfg=cfg, part=part):
                g = Gen(cfg)
                part(Prover(r, g, want_frame), g, g.W)
                r.use(g.u, g.it.funcs_seen)
            tasks.append(("%s %s" % (cfg, part.__name__), task))
    r.parallel(tasks)


def run(r):
    for k, t in (("binary operators", "operands evaluated once each, then the pushed word is the operator applied to them, with the signedness of the usual arithmetic conversions and pointer scaling by the target size"),
                 ("compound assignment", "address evaluated once, right operand once; the object is updated with the operator's result at its exact width"),
                 ("increment and decrement", "object updated by one element at its exact width; the value is the new (prefix) or old (postfix) one"),
                 ("unary operators", "value of the unary operator"),
                 ("logical operators", "second operand evaluated exactly when the first does not decide; value is 0 or 1"),
                 ("conditional operator", "exactly the selected branch is evaluated and is the value")):
        r.rule(k, t)
    r.trusted.append("x86 decoder lib/x86dec.py and abstract machine lib/native.py")
    r.assumptions.append("arithmetic is word-size (pnut's int arithmetic is performed in machine words)")
    explore(r)
    for k, n in (("binary operators", 800), ("compound assignment", 500), ("increment and decrement", 80), ("unary operators", 60), ("logical operators", 60)):
        r.expect(k, n)
