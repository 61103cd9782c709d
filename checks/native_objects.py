"""Native object access: identifiers, dereference, indexing, members, assignment, casts, sizeof, literals and
initialisers read and write exactly the object the C expression designates, at its width and signedness."""
from frontend import unit, Broken
from absint import t_add, t_bin, t_scale, is_int, lin_parts
from native import SP0, BadCode, SP, BX
from cgen import *
from native_ops import T, numeric, pointers, agg, array, Prover, ld, conv, fin_value, ANY, ref_value

A, B = ("v", "val.a"), ("v", "val.b")
ADDR_A, ADDR_B = ("v", "addr.a"), ("v", "addr.b")
GLO = ("v", "R0.bx")


def layout(t, W):
    """(size, alignment) of a type under the natural C ABI, arrays and aggregates included."""
    if t.kind == "ptr":
        return W, W
    if t.kind in ("num", "enum"):
        return t.width, t.width
    if t.kind == "arr":
        s, a = layout(t.target, W)
        return s * t.n, a
    off = mx = al = 0
    for n, m in t.members:
        s, a = layout(m, W)
        off = (off + a - 1) // a * a + s
        mx, al = max(mx, s), max(al, a)
    size = off if t.kind == "struct" else mx
    return (size + al - 1) // al * al, al


def offsets(t, W):
    """Flattened {member name: (offset, type)} including anonymous aggregates."""
    out, off = {}, 0
    for n, m in t.members:
        s, a = layout(m, W)
        o = (off + a - 1) // a * a if t.kind == "struct" else 0
        if n is None:
            for k, (oo, mm) in offsets(m, W).items():
                out[k] = (o + oo, mm)
        else:
            out[n] = (o, m)
        if t.kind == "struct":
            off = o + s
    return out


def aggregate(name, kind, members, W):
    t = agg(name, kind, members, 0)
    t.width = layout(t, W)[0]
    return t


def shapes(W):
    n = numeric(W)
    c, s, i = n[0], n[2], n[4]
    big = n[6] if W == 8 else T("char *", "ptr", W, target=c)
    p = T("int *", "ptr", W, target=i)
    in1 = aggregate("In1", "struct", [("u", c), ("v", s)], W)
    in2 = aggregate("In2", "struct", [("p1", i), ("p2", c)], W)
    un = aggregate("Un", "union", [("w1", c), ("w2", i)], W)
    l = [
        aggregate("Sa", "struct", [("m1", c), ("m2", i), ("m3", s)], W),
        aggregate("Sb", "struct", [("m1", s), ("m2", c), ("m3", big)], W),
        aggregate("Sc", "struct", [("m1", i), ("m2", p), ("m3", n[1])], W),
        aggregate("Sd", "struct", [("m1", array(c, 3)), ("m2", i), ("m3", array(s, 2))], W),
        aggregate("Se", "struct", [("m1", c), ("m2", in1), ("m3", n[3])], W),
        aggregate("Sf", "struct", [("m1", c), (None, in2), ("m3", c)], W),
        aggregate("Sg", "struct", [("m1", c), ("m2", un), ("m3", n[5])], W),
        aggregate("Sh", "struct", [("m1", i), ("m2", i), ("m3", i)], W),
        aggregate("Ua", "union", [("m1", c), ("m2", i), ("m3", s)], W),
        aggregate("Ub", "union", [("m1", c), (None, in2), ("m3", array(c, 6))], W),
    ]
    return l


def make_agg(g, t):
    ms = []
    for n, m in t.members:
        ms.append(g.node("DECL", g.ident_node(n) if n else 0, make(g, m), 0))
    return g.node("STRUCT_KW" if t.kind == "struct" else "UNION_KW", 0, g.ident_node(t.name), g.list(*ms))


def make(g, t):
    if t.kind in ("struct", "union"):
        return make_agg(g, t)
    if t.kind == "arr":
        return g.arr(make(g, t.target), t.n)
    if t.kind == "ptr" and t.target.kind in ("struct", "union"):
        return g.ptr(make_agg(g, t.target))
    return t.make(g)


def scal(t):
    return t.kind in ("num", "ptr", "enum")


def read(t, addr, W):
    """The value of an object of type t at addr (arrays decay, aggregates stand for their address)."""
    if scal(t):
        return ("o", "ld", addr, t.width, t.ext(W)) if t.width < W else ("o", "ld", addr, W, "none")
    return addr


def ident(p, g0, W):
    objs = numeric(W) + pointers(W) + [T("enum E", "enum", W), array(numeric(W)[0], 5), array(numeric(W)[4], 3), shapes(W)[0]]
    for t in objs:
        for kind in ("local", "param", "global"):
            if kind == "param" and t.kind == "arr":
                continue
            g = g0.fork()
            ty = make(g, t)
            words = (t.width + W - 1) // W
            if kind == "global":
                off = g.glob("x", ty, words * W)
                addr = t_add(GLO, off)
            else:
                off = g.local("x", ty, words, kind)
                addr = t_add(SP0, t_scale(t_add(FS0, off, -1), W))
            g.local("y", g.basic("INT_KW"), 1, "local")
            n = g.ident_node("x")
            ref = Ref()
            p.check(g, "read:%s:%s" % (kind, t.name), "reading a %s of type %s" % (kind, t.name),
                    lambda: g.run("codegen_rvalue", n), [(ref, ref.end(read(t, addr, W)))], "identifiers")
            ref = Ref()
            p.check(g, "designate:%s:%s" % (kind, t.name), "address of a %s of type %s" % (kind, t.name),
                    lambda: g.run("codegen_lvalue", n), [(ref, ref.end(addr))], "identifiers", final=width_is(p, g, t.width))
            n2 = g.node("&", n)
            ref = Ref()
            p.check(g, "&%s:%s" % (kind, t.name), "& of a %s of type %s" % (kind, t.name),
                    lambda: g.run("codegen_rvalue", n2), [(ref, ref.end(addr))], "identifiers")
    # the innermost binding of a name is the one that is used
    i, c = g0.basic("INT_KW"), numeric(W)[0]
    for inner, outer in (("local", "global"), ("local", "param"), ("param", "global"), ("local", "local2")):
        g = g0.fork()
        if outer == "global":
            g.glob("x", g.basic("SHORT_KW"), W)
        else:
            g.local("x", g.basic("SHORT_KW"), 1, "local" if outer == "local2" else outer)
            g.idents["x.outer"] = g.idents["x"]
        g.st.g["cgc_fs"] = FS0
        off = g.local("x", c.make(g), 1, inner) if outer != "local2" else shadow(g, c)
        ref = Ref()
        n = g.ident_node("x")
        addr = t_add(SP0, t_scale(t_add(FS0, off, -1), W))
        p.check(g, "shadow:%s/%s" % (inner, outer), "%s variable hiding a %s one" % (inner, outer),
                lambda: g.run("codegen_rvalue", n), [(ref, ref.end(read(c, addr, W)))], "identifiers")


def shadow(g, c):
    off = ("v", "OFF2.x")
    fs = g.st.g["cgc_fs"]
    g.st.g["cgc_fs"] = t_add(off, -1)
    g.call("cgc_add_local_var", g.ident("x"), 1, c.make(g))
    g.st.g["cgc_fs"] = fs
    return off


def width_is(p, g, w):
    def mk(code, want):
        inner = fin_value(code, want)

        def chk(node, kind, a):
            m = inner(node, kind, a)
            if m:
                return m
            if code.frag.ret != w:
                return "reports an object of %s bytes, it has %d" % (fmt(code.frag.ret), w)
        return chk
    return mk


def access(p, g0, W):
    objs = numeric(W) + pointers(W) + [T("enum E", "enum", W)] + [shapes(W)[0]]
    for t in objs:
        for src in ("ptr", "arr"):
            g = g0.fork()
            et = make(g, t)
            pt = g.ptr(et) if src == "ptr" else g.arr(et, 7)
            a = g.leaf("a", pt, W)
            if not (t.kind in ("struct", "union")):
                n = g.node("*", a)
                ref = Ref()
                p.check(g, "*:%s:%s" % (src, t.name), "* of a %s to %s" % (src, t.name), lambda: g.run("codegen_rvalue", n),
                        [(ref, ref.ev(("rv", "a"), ref.end(read(t, A, W))))], "dereference and indexing")
            n = g.node("*", a)
            ref = Ref()
            p.check(g, "lv*:%s:%s" % (src, t.name), "object * of a %s to %s" % (src, t.name), lambda: g.run("codegen_lvalue", n),
                    [(ref, ref.ev(("rv", "a"), ref.end(A)))], "dereference and indexing", final=width_is(p, g, t.width))
            for it in (numeric(W)[4], numeric(W)[0], numeric(W)[5]):
                b = g.leaf("b", it.make(g), it.width)
                addr = t_add(A, t_scale(B, t.width))
                n = g.node("[", a, b)
                if t.kind not in ("struct", "union"):
                    p.check(g, "[]:%s:%s:%s" % (src, t.name, it.name), "(%s to %s)[%s]" % (src, t.name, it.name),
                            lambda: g.run("codegen_rvalue", n),
                            ref_value([("rv", "a"), ("rv", "b")], lambda ref: ref.end(read(t, addr, W))), "dereference and indexing")
                p.check(g, "lv[]:%s:%s:%s" % (src, t.name, it.name), "object (%s to %s)[%s]" % (src, t.name, it.name),
                        lambda: g.run("codegen_lvalue", n),
                        ref_value([("rv", "a"), ("rv", "b")], lambda ref: ref.end(addr)), "dereference and indexing",
                        final=width_is(p, g, t.width))


def members(p, g0, W):
    for s in shapes(W):
        for nm, (off, t) in offsets(s, W).items():
            for op in (".", "ARROW"):
                g = g0.fork()
                st = make(g, s)
                a = g.leaf("a", st if op == "." else g.ptr(st), s.width if op == "." else W)
                n = g.node(op, a, g.ident_node(nm))
                base, ev = (ADDR_A, ("lv", "a")) if op == "." else (A, ("rv", "a"))
                addr = t_add(base, off)
                ref = Ref()
                k = "%s%s%s" % (s.name, "." if op == "." else "->", nm)
                p.check(g, k, "%s (%s)" % (k, t.name), lambda: g.run("codegen_rvalue", n),
                        [(ref, ref.ev(ev, ref.end(read(t, addr, W))))], "members")
                ref = Ref()
                p.check(g, "lv" + k, "object %s (%s)" % (k, t.name), lambda: g.run("codegen_lvalue", n),
                        [(ref, ref.ev(ev, ref.end(addr)))], "members", final=width_is(p, g, t.width))


# ------------------------------------------------------------------ straight-line effects
def straight(code):
    """Events of branch-free code, and the final state."""
    m, evs = code.initial(), []
    for _ in range(4000):
        a = code.advance(m)
        if a[0] == "ev":
            evs.append(a[1])
            m = a[2]
        elif a[0] == "end":
            return evs, a[1]
        else:
            raise BadCode("unexpected %s" % show_node(a))
    raise BadCode("does not end")


class Straight(Prover):
    """Obligations about branch-free code judged by its effects."""

    def effects(self, g, key, what, gen, rule, judge):
        r = self.r
        try:
            frags, dead = gen()
        except BadCode as e:
            frags, dead = None, []
            msg = str(e)
        if frags is not None and not frags:
            msg = "is rejected (fatal error %s)" % (dead[0][1] if dead else "")
            frags = None
        if frags is None:
            if not self.want_frame:
                r.ob(rule, False, key, "exe.c", "%s: %s" % (what, msg))
            return
        for fr in frags:
            code = Code(g, fr)
            try:
                evs, m = straight(code)
                msg = judge(code, evs, m)
            except BadCode as e:
                msg = str(e)
            if self.want_frame:
                r.ob(rule, not code.frame_errors, key, "exe.c", "%s: %s" % (what, code.frame_errors[0] if code.frame_errors else ""),
                     {"config": g.cfg, "construct": what})
            else:
                r.ob(rule, msg is None, key, "exe.c", "%s: %s" % (what, msg),
                     {"config": g.cfg, "construct": what, "instructions": len(code.seen_pc)})


def copied(evs, dst, src, size):
    """The store events copy exactly [src, src+size) to [dst, dst+size)."""
    seen = {}
    for e in evs:
        if e[0] != "store":
            return "unexpected %s" % fmt(e)
        d = t_add(e[1], dst, -1)
        if not is_int(d) or d < 0 or d + e[2] > size:
            return "writes %d bytes at %s, outside the %d-byte object at %s" % (e[2], fmt(e[1]), size, fmt(dst))
        v = e[3]
        while isinstance(v, tuple) and v[0] == "o" and v[1] == "ext" and v[3] >= e[2]:
            v = v[4]
        if not (isinstance(v, tuple) and v[:2] == ("o", "ld") and v[3] >= e[2] and v[2] == t_add(src, d)):
            return "stores %s at offset %d of the destination" % (fmt(v), d)
        if d + v[3] > size:
            return "reads %d bytes past the source" % (d + v[3] - size)
        for k in range(d, d + e[2]):
            seen[k] = True
    if len(seen) != size:
        return "copies %d of %d bytes" % (len(seen), size)
    return None


def assign(p, g0, W):
    for t in numeric(W) + pointers(W) + [T("enum E", "enum", W)]:
        for s in ([t] if t.kind != "num" else [t, numeric(W)[4], numeric(W)[1]]):
            g = g0.fork()
            a = g.leaf("a", make(g, t), t.width)
            b = g.leaf("b", make(g, s), s.width)
            n = g.node("=", a, b)
            w = W if t.kind in ("ptr", "enum") else t.width
            p.check(g, "=:%s:%s" % (t.name, s.name), "(%s) = (%s)" % (t.name, s.name), lambda: g.run("codegen_rvalue", n),
                    ref_value([("lv", "a"), ("rv", "b")], lambda ref: ref.ev(("store", ADDR_A, w, B), ref.end([B, conv(t, B, W)]))),
                    "assignment")
    ps = Straight(p.r, p.g, p.want_frame)
    for s in shapes(W):
        g = g0.fork()
        st = make(g, s)
        a, b = g.leaf("a", st, s.width), g.leaf("b", st, s.width)
        n = g.node("=", a, b)

        def judge(code, evs, m, s=s):
            if sorted(evs[:2]) != [("lv", "a"), ("lv", "b")]:
                return "does not evaluate both operands first (%s)" % show(tuple(evs[:3]))
            if t_add(m.r[SP], SP0, -1) != -W:
                return "the stack is not one word deeper at the end"
            return copied(evs[2:], ADDR_A, ADDR_B, s.width)
        ps.effects(g, "=:%s" % s.name, "assignment of a %s" % s.name, lambda: g.run("codegen_rvalue", n), "assignment", judge)


def rng(t, W):
    if t.kind != "num":
        return (0, (1 << (8 * W)) - 1)
    return (-(1 << (8 * t.width - 1)), (1 << (8 * t.width - 1)) - 1) if t.signed else (0, (1 << (8 * t.width)) - 1)


def casts(p, g0, W):
    ts = numeric(W)
    ptrs = pointers(W)
    for t in ts:
        for s in ts + [ptrs[0]]:
            g = g0.fork()
            a = g.leaf("a", make(g, s), s.width)
            n = g.node("CAST", g.node("DECL", 0, make(g, t), 0), a)
            (lo, hi), (l2, h2) = rng(s, W), rng(t, W)
            want = [conv(t, A, W)]
            if lo >= l2 and hi <= h2 and s.width >= 4:
                want.append(A)
            ref = Ref()
            p.check(g, "cast:%s:%s" % (t.name, s.name), "(%s)(%s)" % (t.name, s.name), lambda: g.run("codegen_rvalue", n),
                    [(ref, ref.ev(("rv", "a"), ref.end(want)))], "casts")
    for t in ptrs:
        for s in (ts[4], ptrs[0], t):
            if s.width != W:
                pass
            g = g0.fork()
            a = g.leaf("a", make(g, s), s.width)
            n = g.node("CAST", g.node("DECL", 0, make(g, t), 0), a)
            ref = Ref()
            p.check(g, "cast:%s:%s" % (t.name, s.name), "(%s)(%s)" % (t.name, s.name), lambda: g.run("codegen_rvalue", n),
                    [(ref, ref.ev(("rv", "a"), ref.end(A)))], "casts")


def sizes(p, g0, W):
    ts = numeric(W) + pointers(W) + [array(numeric(W)[0], 5), array(numeric(W)[4], 3), array(shapes(W)[0], 2)] + shapes(W)
    for t in ts:
        for form in ("expr", "type"):
            g = g0.fork()
            if form == "expr":
                n = g.node("SIZEOF_KW", g.leaf("a", make(g, t), t.width, exclude=("DECL",)))
            else:
                n = g.node("SIZEOF_KW", g.node("DECL", 0, make(g, t), 0))
            ref = Ref()
            p.check(g, "sizeof:%s:%s" % (form, t.name), "sizeof %s %s" % (form, t.name), lambda: g.run("codegen_rvalue", n),
                    [(ref, ref.end(t.width))], "sizeof")


STRINGS = ["", "a", "abc", "a\0b", "\x7f\x80\xff\x01", "x" * 20]


def literals(p, g0, W):
    c = ("v", "chr")
    g = g0.fork()
    a = g.call("new_ast0", g.op("CHARACTER"), 0)
    g.st.mem[("m", t_add(("arr", "heap"), t_add(a, 1)))] = c
    ref = Ref()
    p.check(g, "character", "character literal", lambda: g.run("codegen_rvalue", a), [(ref, ref.end(c))], "literals")
    if "mov_reg_large_imm" not in g0.u.funcs:
        v = ("v", "lit")
        g = g0.fork()
        a = g.call("new_ast0", g.op("INTEGER"), 0)
        g.st.mem[("m", t_add(("arr", "heap"), t_add(a, 1)))] = v
        ref = Ref()
        p.check(g, "integer", "integer literal (stored negated)", lambda: g.run("codegen_rvalue", a),
                [(ref, ref.end(t_scale(v, -1)))], "literals")
    g = g0.fork()
    v = ("v", "lit")
    cst = g.call("new_ast0", g.op("INTEGER"), 0)
    g.st.mem[("m", t_add(("arr", "heap"), t_add(cst, 1)))] = v
    g.call("cgc_add_enum", g.ident("EC"), cst)
    n = g.ident_node("EC")
    ref = Ref()
    p.check(g, "enumerator", "enumeration constant", lambda: g.run("codegen_rvalue", n), [(ref, ref.end(t_scale(v, -1)))], "literals")
    for s in STRINGS:
        g = g0.fork()
        n = string_node(g, s)
        want = tuple(ord(x) for x in s) + (0,)

        def final(code, _):
            def chk(node, kind, a):
                if kind != "end":
                    return "does %s" % show_node(a)
                m = a[1]
                if t_add(m.r[SP], SP0, -1) != -W:
                    return "the stack is not exactly one word deeper"
                v = top(code, m)
                if not (isinstance(v, tuple) and v[0] == "data" and v[1][:len(want)] == want):
                    return "the pushed pointer designates %s, expected %s" % (fmt(v), want)
            return chk
        ref = Ref()
        p.check(g, "string:%r" % s, "string literal %r" % s, lambda: g.run("codegen_rvalue", n), [(ref, ref.end())], "literals", final=final)


def Dom_neg():
    from absint import Dom
    return Dom(None, 0)


PROBE = [3000]


def string_node(g, s):
    """A STRING node whose bytes are s (the intern table entry of a string: address and length)."""
    pr = g.call("alloc_obj", 5)
    H = lambda i: ("m", t_add(("arr", "heap"), t_add(pr, i)))
    start = PROBE[0]
    PROBE[0] += len(s) + 8
    for i, ch in enumerate(s):
        g.st.mem[("m", t_add(("arr", "string_pool"), start + i))] = ord(ch) - 256 if ord(ch) > 127 else ord(ch)
    g.st.mem[("m", t_add(("arr", "string_pool"), start + len(s)))] = 0
    for i in range(5):
        g.st.mem[H(i)] = 0
    g.st.mem[H(1)] = start
    g.st.mem[H(4)] = len(s)
    return g.atom("STRING", pr)


def flat_init(t, W, off=0):
    """[(offset, scalar type)] in initialiser order."""
    if scal(t):
        return [(off, t)]
    if t.kind == "arr":
        out = []
        for i in range(t.n):
            out += flat_init(t.target, W, off + i * layout(t.target, W)[0])
        return out
    out, o = [], 0
    for n, m in t.members:
        s, a = layout(m, W)
        o = (o + a - 1) // a * a if t.kind == "struct" else 0
        out += flat_init(m, W, off + o)
        if t.kind == "union":
            break
        o += s
    return out


def init_tree(g, t, W, left, leaves, off=0):
    """Initialiser node giving the first `left[0]` scalars explicit leaves."""
    if scal(t):
        left[0] -= 1
        nm = "e%d" % len(leaves)
        leaves.append((off, t, nm))
        return g.leaf(nm, make(g, t), t.width, exclude=("STRING", "INITIALIZER_LIST"))
    parts = []
    if t.kind == "arr":
        subs = [(off + i * layout(t.target, W)[0], t.target) for i in range(t.n)]
    else:
        subs, o = [], 0
        for n, m in t.members:
            s, a = layout(m, W)
            o = (o + a - 1) // a * a if t.kind == "struct" else 0
            subs.append((off + o, m))
            if t.kind == "union":
                break
            o += s
    for o, m in subs:
        if left[0] <= 0:
            break
        parts.append(init_tree(g, m, W, left, leaves, o))
    return g.node("INITIALIZER_LIST", g.list(*parts))


def initialisers(p, g0, W):
    ps = Straight(p.r, p.g, p.want_frame)
    n = numeric(W)
    objs = n + pointers(W)[:1] + [array(n[0], 3), array(n[2], 3), array(n[4], 2), array(array(n[0], 2), 2), array(shapes(W)[0], 2)] + shapes(W)
    for t in objs:
        total = len(flat_init(t, W))
        for count in sorted({1, total // 2, total} - {0}):
            for where in ("local", "global"):
                g = g0.fork()
                leaves, left = [], [count]
                if t.kind == "union":
                    count = min(count, len(flat_init(t, W)))
                ini = init_tree(g, t, W, left, leaves)
                ty = make(g, t)
                d = g.node("DECL", g.ident_node("x"), ty, ini)
                words = (t.width + W - 1) // W
                goff = ("v", "GOFF.x")
                if where == "global":
                    g.st.g["cgc_global_alloc"] = goff
                else:
                    g.local("y", g.basic("INT_KW"))

                def judge(code, evs, m, t=t, leaves=leaves, where=where, words=words, goff=goff):
                    vals = [e for e in evs if e[0] in ("rv", "lv")]
                    if sorted(vals) != sorted(("rv", nm) for _, _, nm in leaves):
                        return "does not evaluate each initialiser once: %s" % show(tuple(vals))
                    base = m.r[SP] if where == "local" else t_add(GLO, goff)
                    if where == "local":
                        if t_add(m.r[SP], SP0, -1) != -words * W:
                            return "allocates %s bytes, the variable needs %d" % (fmt(t_add(SP0, m.r[SP], -1)), words * W)
                        if [e for e in evs if e[0] == "store"]:
                            return "writes outside the variable: %s" % fmt([e for e in evs if e[0] == "store"][0])
                        rd = lambda o, w: code.load(m, t_add(base, o), w, "none")
                    else:
                        if m.r[SP] != SP0:
                            return "changes the stack depth"
                        mem = {}
                        for e in evs:
                            if e[0] != "store":
                                continue
                            o = t_add(e[1], base, -1)
                            if not is_int(o) or o < 0 or o + e[2] > words * W:
                                return "writes %d bytes at %s, outside the variable" % (e[2], fmt(e[1]))
                            for k in list(mem):
                                if k[0] < o + e[2] and o < k[0] + k[1]:
                                    del mem[k]
                            mem[(o, e[2])] = e[3]
                        # the memory of globals starts zeroed
                        rd = lambda o, w: mem.get((o, w)) if (o, w) in mem else (0 if not any(k[0] < o + w and o < k[0] + k[1] for k in mem) else ("v", "partly overwritten"))
                    given = {o: nm for o, _, nm in leaves}
                    for o, st in flat_init(t, W):
                        w = W if st.kind == "ptr" else st.width
                        v = rd(o, w)
                        if o in given:
                            if not trunc_eq(v, ("v", "val." + given[o]), w):
                                return "the element at offset %d (%s) is %s, expected the initialiser %s" % (o, st.name, fmt(v), given[o])
                        elif t.kind != "union" and not zero_at(code, m, mem if where == "global" else None, base, o, w):
                            return "the element at offset %d (%s) has no initialiser and is %s, expected 0" % (o, st.name, fmt(v))
                    return None
                fn = "codegen_local_var_decl" if where == "local" else "codegen_glo_var_decl"

                def gen(g=g, d=d, where=where, ty=ty, ini=ini, goff=goff):
                    if where == "local":
                        return g.run("codegen_local_var_decl", d)
                    return g.run("codegen_initializer", 0, ini, ty, reg_glo(g), goff)
                ps.effects(g, "init:%s:%s:%d/%d" % (where, t.name, count, total),
                           "%s %s with %d of %d scalars initialised" % (where, t.name, count, total), gen, "initialisers", judge)
    # aggregates initialised from an object of the same type, alone and inside a list
    for s in shapes(W):
        for where in ("local", "global"):
            g = g0.fork()
            ty = make(g, s)
            o = aggregate("Out", "struct", [("f0", n[0]), ("f1", s), ("f2", n[0])], W)
            outer = make(g, o)
            off = offsets(o, W)["f1"][0]
            b = g.leaf("b", ty, s.width, exclude=("STRING", "INITIALIZER_LIST"))
            f0 = g.leaf("f0", n[0].make(g), 1, exclude=("STRING", "INITIALIZER_LIST"))
            f2 = g.leaf("f2", n[0].make(g), 1, exclude=("STRING", "INITIALIZER_LIST"))
            ini = g.node("INITIALIZER_LIST", g.list(f0, b, f2))
            goff = ("v", "GOFF.x")

            def judge(code, evs, m, s=s, o=o, off=off, where=where, goff=goff):
                if where == "global":
                    base = t_add(GLO, goff)
                    st = [e for e in evs if e[0] == "store"]
                    st = [e for e in st if not (is_int(t_add(e[1], base, -1)) and t_add(e[1], base, -1) in (0, offsets(o, W)["f2"][0]) and e[2] == 1 and e[3] in (("v", "val.f0"), ("v", "val.f2")))]
                    return copied(st, t_add(base, off), ADDR_B, s.width)
                base = m.r[SP]
                for k in range(s.width):
                    hit = [(a, w, v) for (a, w), v in m.mem.items() if is_int(t_add(a, base, -1)) and t_add(a, base, -1) <= off + k < t_add(a, base, -1) + w]
                    if not hit:
                        return "byte %d of the member is not initialised" % k
                    a, w, v = hit[0]
                    d = t_add(a, base, -1)
                    if d + w > off + s.width:
                        return "the copy of the %d-byte member writes %d bytes past it" % (s.width, d + w - off - s.width)
                    while isinstance(v, tuple) and v[0] == "o" and v[1] == "ext":
                        v = v[4]
                    if not (isinstance(v, tuple) and v[:2] == ("o", "ld") and v[2] == t_add(ADDR_B, d - off)):
                        return "byte %d of the member is %s" % (k, fmt(v))
                if [e for e in evs if e[0] == "store"]:
                    return "writes outside the variable"
                return None

            def gen(g=g, ini=ini, outer=outer, where=where, goff=goff):
                if where == "global":
                    return g.run("codegen_initializer", 0, ini, outer, reg_glo(g), goff)
                return g.run("codegen_local_var_decl", g.node("DECL", g.ident_node("x"), outer, ini))
            ps.effects(g, "init:%s:from-object:%s" % (where, s.name), "%s struct member initialised from a %s" % (where, s.name), gen, "initialisers", judge)
    # character arrays initialised by a string
    for s in STRINGS[:5]:
        for extra in (1, 4):
            for where in ("local", "global"):
                g = g0.fork()
                N = len(s) + extra
                ty = g.arr(g.basic("CHAR_KW"), N)
                ini = string_node(g, s)
                goff = ("v", "GOFF.x")

                def judge(code, evs, m, s=s, N=N, where=where, goff=goff):
                    base = m.r[SP] if where == "local" else t_add(GLO, goff)
                    got = {}
                    if where == "local":
                        for (a, w), v in m.mem.items():
                            o = t_add(a, base, -1)
                            if is_int(o) and o >= 0 and w == 1:
                                got[o] = v
                    else:
                        for e in evs:
                            o = t_add(e[1], base, -1)
                            if e[0] != "store" or not is_int(o) or o < 0 or o + e[2] > N:
                                return "writes outside the array"
                            got[o] = e[3]
                    for k in range(N):
                        want = ord(s[k]) if k < len(s) else 0
                        v = got.get(k, 0 if where == "global" else None)
                        if not is_int(v) or v & 255 != want:
                            return "byte %d is %s, expected %d" % (k, fmt(v), want)

                def gen(g=g, ini=ini, ty=ty, where=where, goff=goff):
                    if where == "global":
                        return g.run("codegen_initializer", 0, ini, ty, reg_glo(g), goff)
                    return g.run("codegen_local_var_decl", g.node("DECL", g.ident_node("x"), ty, ini))
                ps.effects(g, "init:%s:char[%d]:%r" % (where, N, s), "%s char[%d] = %r" % (where, N, s), gen, "initialisers", judge)


def zero_at(code, m, mem, base, o, w):
    """All bytes of [o, o+w) hold zero (possibly through wider or narrower zero stores)."""
    cells = mem.items() if mem is not None else [((t_add(a, base, -1), ww), v) for (a, ww), v in m.mem.items()]
    for k in range(o, o + w):
        hit = [v for (a, ww), v in cells if is_int(a) and a <= k < a + ww]
        if not hit:
            if mem is not None:
                continue
            return False
        if any(v != 0 for v in hit):
            return False
    return True


def reg_glo(g):
    return macro(g.u, "reg_glo") if "reg_glo" not in g.u.consts else g.u.consts["reg_glo"]


PARTS = (ident, access, members, assign, casts, sizes, literals, initialisers)


def explore(r, want_frame=False):
    tasks = []
    for cfg in ("i386", "x64"):
        for part in PARTS:
            def task(r, cfg=cfg, part=part):
                g = Gen(cfg)
                part(Prover(r, g, want_frame), g, g.W)
                r.use(g.u, g.it.funcs_seen)
            tasks.append(("%s %s" % (cfg, part.__name__), task))
    r.parallel(tasks)


def run(r):
    for k, t in (("identifiers", "a variable is read at its own address, width and signedness; the innermost binding wins; & and stores designate the same address"),
                 ("dereference and indexing", "operands evaluated once; the element at pointer + index * element size, at its width and signedness"),
                 ("members", "the member's C offset (natural alignment, anonymous aggregates, unions), width and signedness"),
                 ("assignment", "both operands evaluated once; exactly the object's bytes are written; struct assignment copies exactly the struct"),
                 ("casts", "the value is converted to the target type's range"),
                 ("sizeof", "C size of the type, operand not evaluated"),
                 ("literals", "the literal's value; string literals designate their bytes followed by NUL"),
                 ("initialisers", "each initialiser evaluated once into its own element; other elements zero; nothing outside the object written")):
        r.rule(k, t)
    r.trusted.append("x86 decoder lib/x86dec.py and abstract machine lib/native.py")
    explore(r)
