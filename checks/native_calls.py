"""Native calls: arguments, parameters, results, start-up code, global initialisers and the built-in functions."""
from frontend import unit, Broken
from absint import t_add, t_scale, is_int, lin_parts, base_of
from native import SP0, BadCode, SP, BX, AX, CX, DX, SI, DI, BP, M, is_temp
from cgen import *
from native_ops import T, numeric, pointers, array, Prover, fin_value, ref_value
from native_objects import make, layout, offsets, shapes, aggregate, read, scal

GLO = ("v", "R0.bx")
STR = ("struct", "union")


def words(t, W):
    return (t.width + W - 1) // W


def kinds(W):
    n = numeric(W)
    c = n[0]
    out = n + pointers(W)[:1] + [T("enum E", "enum", W)]
    out += [aggregate("P%d" % k, "struct", [("m", array(c, k))], W) for k in (1, 2, 3, W - 1, W, W + 1, 2 * W, 2 * W + 3)]
    out += [shapes(W)[0], shapes(W)[8]]
    return out


# ---------------------------------------------------------------- calls
def calls(p, g0, W, quick):
    ks = kinds(W)
    i = numeric(W)[4]
    lists = [[]] + [[t] for t in ks] + [[t, i] for t in ks] + [[i, t] for t in ks]
    lists += [[i, t, i] for t in ks if t.kind in STR] + [[ks[0], ks[2], ks[4], ks[-2]], [i] * 5, [ks[-4], ks[-5], ks[-6]]]
    for ts in lists:
        for how in ("direct", "value", "deref", "local variable", "parameter", "global variable", "local over function", "function over local"):
            if how not in ("direct", "value") and (len(ts) > 1 or ts and ts[0] is not i) or how == "value" and len(ts) == 1 and ts[0] is not i:
                continue
            one_call(p, g0, W, ts, how)


def one_call(p, g0, W, ts, how):
    g = g0.fork()
    i = g.basic("INT_KW")
    args, evs, lay, want, off = [], [], [], [], 0
    ds = []
    for k, t in enumerate(ts):
        ty = make(g, t)
        nm = "a%d" % k
        args.append(g.leaf(nm, ty, t.width))
        ds.append(g.node("DECL", g.ident_node("p%d" % k), ty, 0))
        if t.kind in STR:
            evs.append(("lv", nm))
            lay.append(("b", off, t.width))
            want.append(("bytes",) + tuple(("mem", t_add(("v", "addr." + nm), j)) for j in range(t.width)))
        else:
            evs.append(("rv", nm))
            lay.append(("w", off))
            want.append(("v", "val." + nm))
        off += words(t, W) * W
    fty = g.func(i, g.list(*ds))
    pt = g.ptr(fty)
    if how in ("local variable", "parameter", "global variable", "local over function"):
        if "over" in how:
            g.fun("v", fty)
        if how[0] == "g":
            at = t_add(GLO, g.glob("v", pt, W))
        else:
            at = t_add(SP0, t_scale(t_add(FS0, g.local("v", pt, 1, "param" if how[0] == "p" else "local"), -1), W))
        fun, target = g.ident_node("v"), ("o", "ld", at, W, "none")
    elif how in ("direct", "function over local"):
        if "over" in how:
            g.local("other", pt)
        lbl = g.fun("callee", fty)
        fun, target = g.ident_node("callee"), lbl
    else:
        f = g.leaf("fp", pt, W, exclude=("IDENTIFIER",))
        evs.append(("rv", "fp"))
        fun, target = (f if how == "value" else g.node("*", f)), ("v", "val.fp")
        if how == "deref" and p.safe:
            return
    n = g.node("(", fun, g.list(*args))
    key = "%s(%s)" % (how, ", ".join(t.name for t in ts))
    refs = []
    for ref, e in ref_value(evs, lambda ref: ref.ev(("call", target, tuple(want)), ref.end(("v", "result")))):
        refs.append((ref, e))
    p.check(g, key, "a call with arguments (%s), function named %s" % (", ".join(t.name for t in ts), how),
            lambda: g.run("codegen_rvalue", n), refs, "calls", nargs=lay)


# ---------------------------------------------------------------- functions
def functions(p, g0, W, quick):
    ks = kinds(W)
    i = numeric(W)[4]
    lists = [[t] for t in ks] + [[t, i] for t in ks] + [[i, t, i] for t in ks if quick is False or t.kind in STR or t.width < 4] + [[ks[-4], ks[-5], ks[-3], i]] + [[i] * 6]
    for ts in lists:
        for k, t in enumerate(ts):
            if len(ts) > 1 and ts[k] is not i and k != 1:
                continue
            for extra in ("", "locals", "nested"):
                if extra and not (ts[k] is i and len(ts) > 1):
                    continue
                one_fun(p, g0, W, ts, k, extra)
    # falling off the end, returning nothing, main
    for name in ("f", "main"):
        for ret in ("VOID_KW", "INT_KW"):
            for ps in ([], [i, i]):
                for body in ("empty", "st", "decl st", "return", "return e"):
                    if (body == "return e") == (ret == "VOID_KW") and body.startswith("return"):
                        continue
                    endings(p, g0, W, name, ret, ps, body)


def params_of(g, ts):
    ds, at, off = [], [], g.W
    for k, t in enumerate(ts):
        ds.append(g.node("DECL", g.ident_node("p%d" % k), make(g, t), 0))
        at.append(t_add(SP0, off))
        off += words(t, g.W) * g.W
    return g.list(*ds), at


def fun_node(g, name, ret, ps, body):
    r = 0
    for s in reversed(body):
        r = g.node("{", s, r)
    return g.node("FUN_DECL", g.node("DECL", g.ident_node(name), g.func(ret, ps), 0), r)


def one_fun(p, g0, W, ts, k, extra):
    g = g0.fork()
    ps, at = params_of(g, ts)
    t = ts[k]
    e = g.ident_node("p%d" % k)
    if t.kind in STR:
        off, mt = list(offsets(t, W).values())[-1]
        e = g.node(".", e, g.ident_node(list(offsets(t, W))[-1]))
        addr = t_add(at[k], off)
        if mt.kind == "arr":
            want = addr
        else:
            want = read(mt, addr, W)
    else:
        want = read(t, at[k], W)
    ref = Ref()
    end = ref.end("ret", want)
    body, entry = [], end
    if extra:
        d = g.node("DECLS", g.list(g.node("DECL", g.ident_node("x"), g.arr(g.basic("INT_KW"), 6), 0), g.node("DECL", g.ident_node("y"), g.basic("CHAR_KW"), 0)), 0)
        s = g.leaf("s", None, None, exclude=("DECLS",))
        entry = ref.ev(("st", "s"), end)
        body = [d, s]
    r = g.node("RETURN_KW", e)
    if extra == "nested":
        body = body + [g.node("{", g.node("DECLS", g.list(g.node("DECL", g.ident_node("z"), g.basic("INT_KW"), 0)), 0), g.node("{", r, 0))]
    else:
        body = body + [r]
    n = fun_node(g, "f", g.basic("INT_KW"), ps, body)
    key = "parameter %d of (%s)%s" % (k, ", ".join(x.name for x in ts), " " + extra if extra else "")
    p.check(g, key, "reading " + key, lambda: g.run("codegen_glo_fun_decl", n), [(ref, entry)], "parameters", final=fin_ret)


def fin_ret(code, _):
    def chk(node, kind, a):
        if kind != "ret":
            return "expected a return, the code does %s" % show_node(a)
        if a[2] != SP0:
            return "the return address is taken from %s, it is at %s" % (fmt(a[2]), fmt(SP0))
        if a[3].r[BX] != GLO:
            return "the global table register is not restored"
        if node[2] is not None and a[1] != node[2]:
            return "returns %s, expected %s" % (fmt(a[1]), fmt(node[2]))
        return None
    return chk


def endings(p, g0, W, name, ret, ts, body):
    g = g0.fork()
    ps, at = params_of(g, ts)
    ref = Ref()
    zero = name == "main" and not body.startswith("return")
    end = ref.end("ret", 0 if zero else None)
    stmts = []
    entry = end
    if "st" in body:
        entry = ref.ev(("st", "s"), end)
        stmts = [g.leaf("s", None, None, exclude=("DECLS",))]
    if "decl" in body:
        stmts = [g.node("DECLS", g.list(g.node("DECL", g.ident_node("x"), g.arr(g.basic("INT_KW"), 5), 0)), 0)] + stmts
    if body == "return":
        stmts = [g.node("RETURN_KW", 0)]
    if body == "return e":
        e = g.leaf("e", g.basic("INT_KW"), 4)
        stmts = [g.node("RETURN_KW", e)]
        entry = ref.ev(("rv", "e"), ref.end("ret", ("v", "val.e")))
    n = fun_node(g, name, g.basic(ret), ps, stmts)
    key = "%s %s(%d) %s" % (ret.split("_")[0].lower(), name, len(ts), body)
    p.check(g, key, "function " + key, lambda: g.run("codegen_glo_fun_decl", n), [(ref, entry)], "endings", final=fin_ret)


# ---------------------------------------------------------------- whole images
class Image(Gen):
    """A generator whose start-up code is kept."""
    whole = True

    def reset_code(self, st):
        pass


SYS = {
    "i386": dict(exit=1, read=3, write=4, open=5, close=6, lseek=19, unlink=10, mmap=192),
    "x64": dict(exit=60, read=0, write=1, open=2, close=3, lseek=8, unlink=87, mmap=9),
    "mac": dict(exit=0x2000001, read=0x2000003, write=0x2000004, open=0x2000005, close=0x2000006, lseek=0x20000C7, unlink=0x200000A, mmap=0x20000C5),
}
NARGS = dict(exit=1, read=3, write=3, open=3, close=1, lseek=3, unlink=1)
REGARGS = {"i386": [BX, CX, DX, SI, DI, BP], "x64": [DI, SI, DX, 10, 8, 9], "mac": [DI, SI, DX, 10, 8, 9]}


def arch(cfg):
    return cfg.split("-")[0]


class Call:
    """A system call as the machine sees it."""

    def __init__(self, cfg, ev):
        _, how, regs = ev
        r = dict(regs)
        a = arch(cfg)
        if how != ("int80" if a == "i386" else "syscall"):
            raise BadCode("system call by " + how)
        self.no = r[AX]
        names = {v: k for k, v in SYS[a].items()}
        self.name = names.get(self.no, "number %s" % fmt(self.no))
        self.args = [r[x] for x in REGARGS[a]]


def image(cfg, build):
    g = Image(cfg)
    g.it.h["generate_exe"] = lambda it, st, args, node: [(None, st)]
    build(g)
    frags, dead = g.run("codegen_end")
    return g, frags, dead


def ident_label(g, name):
    if name not in g.idents:
        raise Broken("no built-in function is called " + name)
    b = g.call("cgc_lookup_fun", g.idents[name], g.st.g["cgc_globals"])
    if b == 0 or not is_int(b):
        return None
    return g.st.mem[("m", t_add(("arr", "heap"), b + 4))]


def word_at(m, code, i):
    return code.load(m, t_add(SP0, i * code.W), code.W, "none")


def start(code, label):
    pos = code.labels.get(label)
    if not pos or len(pos) != 1:
        raise BadCode("the function is placed %d times" % len(pos or []))
    m = M()
    m.pc = pos[0]
    return m


def follow(code, m, on_event, depth=0):
    """All paths from m; on_event(ev, m) returns the state to go on with, or a final message."""
    out = []
    work = [(m, ())]
    n = 0
    while work:
        m, conds = work.pop()
        n += 1
        if n > 400:
            raise BadCode("too many paths")
        a = code.advance(m)
        if a[0] == "br":
            work += [(a[2], conds + ((a[1], True),)), (a[3], conds + ((a[1], False),))]
        elif a[0] == "ev":
            m2 = on_event(a[1], a[2], conds)
            if m2 is None:
                out.append(("stop", a[2], conds))
            else:
                work.append((m2, conds))
        else:
            out.append((a[0], a, conds))
    return out


def builtin(r, cfg, g, fr, name, spec):
    code = Code(g, fr)
    key = name
    where = "exe.c [%s]: %s" % (cfg, name)
    try:
        l = ident_label(g, name)
        msg = "the name is not bound to a function" if l is None else spec(code, start(code, l))
    except BadCode as e:
        msg = str(e)
    r.ob("built-in", msg is None, key, where, "%s: %s" % (name, msg), {"config": cfg, "instructions": len(code.seen_pc)})


def plain_call(cfg, name):
    """The function hands its arguments to one system call and returns its result."""
    def spec(code, m):
        seen = []

        def ev(e, m2, conds):
            if e[0] != "sys":
                raise BadCode("unexpected " + fmt(e))
            seen.append(Call(cfg, e))
            if seen[-1].name == "exit":
                return None
            return m2
        outs = follow(code, m, ev)
        if len(seen) != 1:
            return "%d system calls" % len(seen)
        c = seen[0]
        if c.name != name:
            return "system call %s instead of %s" % (c.name, name)
        for i in range(NARGS[name]):
            if c.args[i] != ("o", "ld", t_add(SP0, (i + 1) * code.W), code.W, "none"):
                return "argument %d of the system call is %s, not argument %d of the function" % (i + 1, fmt(c.args[i]), i + 1)
        if name == "exit":
            return None
        return returned(code, outs, ("o", "sysret", 1))
    return spec


def returned(code, outs, want):
    for kind, a, conds in outs:
        if kind != "ret":
            return "ends with %s" % show_node(a)
        m = good_return(code, a)
        if m:
            return m
        if want is not None and a[1] != want:
            return "returns %s, not %s" % (fmt(a[1]), fmt(want))
    return None if outs else "never returns"


def good_return(code, a):
    if a[2] != SP0:
        return "the return address is taken from %s" % fmt(a[2])
    if a[3].r[BX] != GLO:
        return "the global table register is not restored"
    return None


def put_char(cfg, what, n=1):
    def spec(code, m):
        seen = []

        def ev(e, m2, conds):
            if e[0] != "sys":
                raise BadCode("unexpected " + fmt(e))
            c = Call(cfg, e)
            seen.append((c, code.mem_bytes(m2, c.args[1], 1)))
            return m2
        outs = follow(code, m, ev)
        if len(seen) != 1 or seen[0][0].name != "write":
            return "system calls %s" % [c.name for c, _ in seen]
        c, b = seen[0]
        if c.args[0] != 1 or c.args[2] != 1:
            return "writes %s bytes to descriptor %s" % (fmt(c.args[2]), fmt(c.args[0]))
        if b != [("mem", t_add(SP0, code.W))]:
            return "writes %s, not its argument" % (b,)
        return returned(code, outs, None)
    return spec


BYTE = ("v", "byte")


def get_char(cfg, fd):
    def spec(code, m):
        seen = []
        want_fd = 0 if fd == 0 else ("o", "ld", t_add(SP0, code.W), code.W, "none")

        def ev(e, m2, conds):
            if e[0] != "sys":
                raise BadCode("unexpected " + fmt(e))
            c = Call(cfg, e)
            seen.append(c)
            buf = c.args[1]
            if c.name == "read" and is_temp(buf):
                if t_add(buf, m2.r[SP], -1) != 0 and not (is_int(t_add(buf, m2.r[SP], -1)) and t_add(buf, m2.r[SP], -1) > 0):
                    raise BadCode("reads into memory below the stack pointer")
                old = code.load(m2, buf, code.W, "none")
                code.store(m2, buf, code.W, t_add(old & ~255, BYTE) if is_int(old) else ("o", "lowbyte", old, BYTE))
            return m2
        outs = follow(code, m, ev)
        if len(seen) != 1 or seen[0].name != "read":
            return "system calls %s" % [c.name for c in seen]
        c = seen[0]
        if c.args[0] != want_fd or c.args[2] != 1:
            return "reads %s bytes from descriptor %s" % (fmt(c.args[2]), fmt(c.args[0]))
        got = {True: 0, False: 0}
        for kind, a, conds in outs:
            if kind != "ret":
                return "ends with %s" % show_node(a)
            bad = good_return(code, a)
            if bad:
                return bad
            one = None
            for pr, v in conds:
                if eqpart(pr)[0] == ("o", "sysret", 1) and eqpart(pr)[1] == 1:
                    one = v
                elif pr == ("nz", ("o", "sysret", 1)) and not v:
                    one = False
                elif pr[0] == "lt" and pr[1:] == (("o", "sysret", 1), 1):
                    one = not v
                elif pr[0] == "lt" and pr[1:] == (0, ("o", "sysret", 1)):
                    one = v
            if one is None:
                return "returns %s without looking at the number of bytes read" % fmt(a[1])
            got[one] += 1
            if a[1] != (BYTE if one else -1):
                return "returns %s when %s" % (fmt(a[1]), "a byte was read" if one else "nothing was read")
        return None if got[True] and got[False] else "does not distinguish the end of the file"
    return spec


def fopen_spec(cfg):
    def spec(code, m):
        seen = []

        def ev(e, m2, conds):
            if e[0] != "sys":
                raise BadCode("unexpected " + fmt(e))
            seen.append(Call(cfg, e))
            return m2
        outs = follow(code, m, ev)
        if len(seen) != 1 or seen[0].name != "open":
            return "system calls %s" % [c.name for c in seen]
        if seen[0].args[0] != ("o", "ld", t_add(SP0, code.W), code.W, "none"):
            return "opens %s" % fmt(seen[0].args[0])
        if seen[0].args[1] != 0:
            return "opens with flags %s" % fmt(seen[0].args[1])
        ok = set()
        R = ("o", "sysret", 1)
        for kind, a, conds in outs:
            if kind != "ret":
                return "ends with %s" % show_node(a)
            bad = good_return(code, a)
            if bad:
                return bad
            neg = [v for pr, v in conds if pr == ("lt", R, 0)]
            if not neg:
                return "does not look at the result of open"
            ok.add(neg[0])
            if a[1] != (0 if neg[0] else R):
                return "returns %s when open %s" % (fmt(a[1]), "fails" if neg[0] else "succeeds")
        return None if len(ok) == 2 else "does not distinguish failure"
    return spec


def malloc_spec(cfg):
    def spec(code, m):
        W = code.W
        H = macro(code.gen.u, "RT_HEAP_SIZE")
        n = ("o", "ld", t_add(SP0, W), W, "none")
        bump = ("o", "ld", t_add(GLO, W), W, "none")
        base = ("o", "ld", GLO, W, "none")
        stores = []
        written = []

        def ev(e, m2, conds):
            if e[0] == "store":
                stores.append((e, conds))
                return m2
            if e[0] != "sys":
                raise BadCode("unexpected " + fmt(e))
            c = Call(cfg, e)
            if c.name == "exit":
                written.append((c, conds))
                return None
            if c.name != "write":
                raise BadCode("system call " + c.name)
            return m2
        outs = follow(code, m, ev)
        new, top_ = t_add(bump, n), t_add(base, H)
        fits = set()
        for kind, a, conds in outs:
            v = None
            for pr, val in conds:
                if pr in (("lt", top_, new), ("ult", top_, new)):
                    v = not val
                elif pr in (("lt", new, top_), ("ult", new, top_)):
                    v = val
            if v is None:
                return "does not compare the end of the block with the end of the heap (%s)" % "; ".join(fmt(c[0]) for c in conds)
            fits.add(v)
            if not v:
                if kind != "stop":
                    return "goes on when the heap is exhausted"
                continue
            if kind != "ret":
                return "ends with %s although the block fits" % show_node(a)
            bad = good_return(code, a)
            if bad:
                return bad
            if a[1] != bump:
                return "returns %s, not the old end of the used heap" % fmt(a[1])
            mine = [s for s, c in stores if c == conds]
            if mine != [("store", t_add(GLO, W), W, new)]:
                return "the end of the used heap becomes %s" % [fmt(s) for s in mine]
        for c, conds in written:
            if c.args[0] == 0:
                return "exits with success when the heap is exhausted"
        return None if len(fits) == 2 else "never runs out of memory"
    return spec


def nothing(cfg):
    def spec(code, m):
        def ev(e, m2, conds):
            raise BadCode("unexpected " + fmt(e))
        return returned(code, follow(code, m, ev), None)
    return spec


def stub(cfg):
    """Says it is not supported and ends the program with a failure."""
    def spec(code, m):
        ends = []

        def ev(e, m2, conds):
            c = Call(cfg, e) if e[0] == "sys" else None
            if c is None or c.name not in ("write", "exit"):
                raise BadCode("unexpected " + fmt(e))
            if c.name == "exit":
                ends.append(c)
                return None
            return m2
        outs = follow(code, m, ev)
        if not ends or any(k != "stop" for k, _, _ in outs):
            return "does not end the program"
        if any(c.args[0] == 0 for c in ends):
            return "ends the program with success"
        return None
    return spec


def builtins(r, cfg):
    def build(g):
        define_main(g, "INT_KW", [])
    g, frags, dead = image(cfg, build)
    if len(frags) != 1:
        return r.ob("built-in", False, "image", "exe.c [%s]" % cfg, "no executable is made (%s)" % (dead[0][1] if dead else "",))
    fr = frags[0]
    for n in NARGS:
        builtin(r, cfg, g, fr, n, plain_call(cfg, n))
    builtin(r, cfg, g, fr, "fclose", plain_call(cfg, "close"))
    builtin(r, cfg, g, fr, "putchar", put_char(cfg, "putchar"))
    builtin(r, cfg, g, fr, "getchar", get_char(cfg, 0))
    builtin(r, cfg, g, fr, "fgetc", get_char(cfg, 1))
    builtin(r, cfg, g, fr, "fopen", fopen_spec(cfg))
    builtin(r, cfg, g, fr, "malloc", malloc_spec(cfg))
    builtin(r, cfg, g, fr, "free", nothing(cfg))
    builtin(r, cfg, g, fr, "printf", stub(cfg))
    r.use(g.u, g.it.funcs_seen)


def define_main(g, ret, ts, body="st"):
    ps, at = params_of(g, ts)
    if body == "st":
        s = [g.leaf("main", None, None, exclude=("DECLS",))] + [g.node("RETURN_KW", 0)] * (ret == "VOID_KW")
    else:
        s = [g.node("RETURN_KW", g.leaf("main", g.basic("INT_KW"), 4))]
    g.call("codegen_glo_decl", fun_node(g, "main", g.basic(ret), ps, s))


# ---------------------------------------------------------------- start-up
def startups(r, cfg):
    W = word(unit(cfg))
    i = numeric(W)[4]
    for ret in ("INT_KW", "VOID_KW", "value"):
        for ninit in (0, 1, 3):
            for order in ("first", "last", "mixed"):
                if ninit == 0 and order != "first":
                    continue
                startup(r, cfg, ret, ninit, order, i)


def startup(r, cfg, how, ninit, order, i):
    ret, body = ("INT_KW", "value") if how == "value" else (how, "st")
    W = word(unit(cfg))
    inits = []
    sizes = []

    def var(g, k, init):
        nm = "g%d" % k
        t = [g.basic("INT_KW"), g.basic("CHAR_KW"), g.arr(g.basic("INT_KW"), 7)][k % 3 if not init else 0]
        e = 0
        if init:
            e = g.leaf("e%d" % k, g.basic("INT_KW"), 4, exclude=("STRING", "INITIALIZER_LIST"))
            inits.append(k)
        d = g.node("DECL", g.ident_node(nm), t, e)
        before = g.st.g["cgc_global_alloc"]
        g.call("codegen_glo_decl", g.node("DECLS", g.list(d), 0))
        w = [4, 1, 28][k % 3] if not init else 4
        sizes.append((nm, before, w))

    def build(g):
        if order == "last":
            define_main(g, ret, [i, i], body)
        for k in range(ninit):
            var(g, 10 + k, False)
            var(g, k, True)
            if order == "mixed" and k == 0:
                define_main(g, ret, [i, i], body)
        if order == "mixed" and ninit == 0 or order == "first":
            define_main(g, ret, [i, i], body)

    key = "%s main, %d initialised globals, main %s" % (how.split("_")[0].lower(), ninit, order)
    where = "exe.c [%s]: start-up code" % cfg
    try:
        g, frags, dead = image(cfg, build)
        if len(frags) != 1:
            return r.ob("start-up", False, key, where, "no executable is made (%s)" % (dead[0][1] if dead else "",))
        code = Code(g, frags[0])
        code.image = True
        msg = run_image(code, g, cfg, body, inits, sizes)
    except BadCode as e:
        msg = str(e)
    r.ob("start-up", msg is None, key, where, "%s: %s" % (key, msg), {"config": cfg})


def binding_offset(g, name):
    b = g.call("cgc_lookup_var", g.idents[name], g.st.g["cgc_globals"])
    return g.st.mem[("m", t_add(("arr", "heap"), b + 3))]


def run_image(code, g, cfg, body, inits, sizes):
    W = code.W
    st = {"n": 0, "glo": None, "stage": "map globals", "order": []}
    main = ident_label(g, "main")
    need = 2 * W
    for nm, before, w in sizes:
        o = binding_offset(g, nm)
        if not is_int(o) or o < 2 * W:
            return "variable %s overlaps the words reserved for malloc" % nm
        for nm2, b2, w2 in sizes:
            o2 = binding_offset(g, nm2)
            if nm2 != nm and o < o2 + w2 and o2 < o + w:
                return "variables %s and %s overlap" % (nm, nm2)
        need = max(need, o + w)
    H = macro(g.u, "RT_HEAP_SIZE")
    trace = []

    def ev(e, m, conds):
        if conds:
            raise BadCode("the start-up code branches")
        if e[0] == "sys":
            c = Call(cfg, e)
            trace.append((c.name, c, dict(m.r)))
            if c.name == "exit":
                return None
            return m
        trace.append((e[0], e, dict(m.r), m))
        return m
    m = M()
    m.pc = 0
    outs = follow(code, m, ev)
    t = list(trace)

    def expect(name, what):
        if not t:
            raise BadCode("the program stops before " + what)
        x = t.pop(0)
        if x[0] != name:
            raise BadCode("expected %s, the code does %s" % (what, x[0] if x[0] not in ("store", "ev", "st", "rv") else fmt(x[1])))
        return x
    W32 = code.mode == 32
    c = expect("mmap", "the allocation of the globals")[1]
    check_map(c, lambda n: is_int(n) and n >= need, "globals (%d bytes needed)" % need, cfg)
    c2 = expect("mmap", "the allocation of the heap")[1]
    check_map(c2, lambda n: n == H, "heap", cfg)
    glo, heap = ("o", "sysret", 1), ("o", "sysret", 2)
    two = sorted([expect("store", "the heap's start")[1], expect("store", "the heap's used end")[1]], key=repr)
    want = sorted([("store", glo, W, heap), ("store", t_add(glo, W), W, heap)], key=repr)
    if two != want:
        return "the heap's words become %s" % [fmt(x) for x in two]
    for k in inits:
        x = expect("rv", "the initialiser of g%d" % k)
        if x[1] != ("rv", "e%d" % k):
            return "initialisers are evaluated in another order"
        s = expect("store", "the store of g%d" % k)[1]
        if s[1] != t_add(glo, binding_offset(g, "g%d" % k)) or s[3] != ("v", "val.e%d" % k):
            return "the initialiser of g%d is stored by %s" % (k, fmt(s))
    x = expect("st" if body == "st" else "rv", "the body of main")
    m = x[3]
    # at the body, [SP] is the return address (possibly below the frame), argc and argv above it
    low = t_add(m.r[SP], 0 if body == "st" else W)
    argc = code.load(m, t_add(low, W), W, "none")
    argv = code.load(m, t_add(low, 2 * W), W, "none")
    if argc != ("o", "ld", SP0, W, "none"):
        return "argc is %s" % fmt(argc)
    if argv != t_add(SP0, W):
        return "argv is %s" % fmt(argv)
    if m.r[BX] != glo:
        return "the global table register holds %s in main" % fmt(m.r[BX])
    c = expect("exit", "the end of the process")[1]
    if body != "st" and c.args[0] != ("v", "val.main"):
        return "a main that returns a value exits with %s" % fmt(c.args[0])
    if body == "st" and c.args[0] != 0:
        return "a main that ends normally exits with %s" % fmt(c.args[0])
    if any(k != "stop" for k, _, _ in outs):
        return "control continues after the end of the process"
    return None


def check_map(c, size, what, cfg):
    a = c.args
    flags = 0x22 if arch(cfg) != "mac" else 0x1020
    mac_ok = (0x1002, 0x1020)
    if not size(a[1]):
        raise BadCode("%s bytes are mapped for the %s" % (fmt(a[1]), what))
    if a[0] != 0 or a[2] != 3 or a[4] != -1 or a[5] != 0:
        raise BadCode("mapping of the %s with arguments %s" % (what, [fmt(x) for x in a]))
    if a[3] != flags and not (arch(cfg) == "mac" and a[3] in mac_ok):
        raise BadCode("mapping of the %s with flags %s" % (what, fmt(a[3])))


# ---------------------------------------------------------------- linking
def linking(r, cfg):
    W = word(unit(cfg))
    i = numeric(W)[4]

    def proto(g, name):
        d = g.node("DECL", g.ident_node(name), g.func(g.basic("INT_KW"), 0), 0)
        g.call("codegen_glo_decl", g.node("DECLS", g.list(d), 0))

    def define(g, name, *body):
        g.call("codegen_glo_decl", fun_node(g, name, g.basic("INT_KW"), 0, list(body)))

    def call(g, name):
        return g.node("(", g.ident_node(name), 0)

    def addr(g, name):
        return g.node("RETURN_KW", g.ident_node(name))
    cases = {
        "called and defined later": (True, lambda g: (proto(g, "f"), define(g, "main", call(g, "f")), define(g, "f", ))),
        "called and defined before": (True, lambda g: (define(g, "f"), define(g, "main", call(g, "f")))),
        "defined twice": (False, lambda g: (define(g, "f"), define(g, "f"), define(g, "main"))),
        "defined twice, called between": (False, lambda g: (define(g, "f"), define(g, "main", call(g, "f")), define(g, "f"))),
        "called, never defined": (False, lambda g: (proto(g, "f"), define(g, "main", call(g, "f")))),
        "address taken, never defined": (False, lambda g: (proto(g, "f"), define(g, "main", addr(g, "f")))),
        "declared, not called": (True, lambda g: (proto(g, "f"), define(g, "main"))),
        "no main": (False, lambda g: define(g, "f")),
        "recursive": (True, lambda g: define(g, "main", call(g, "main"))),
        "undeclared": (False, lambda g: define(g, "main", call(g, "nowhere"))),
        "built-in redefined": (False, lambda g: (define(g, "putchar"), define(g, "main"))),
    }
    for key, (ok, build) in cases.items():
        try:
            g, frags, dead = real_image(cfg, build)
            done = len(frags) >= 1
        except Rejected_:
            done = False
        r.ob("linking", done == ok, key, "exe.c [%s]" % cfg, "a function that is %s is %s" % (key, "rejected" if ok else "accepted"), {"config": cfg})


class Rejected_(Exception):
    pass


class RealImage(Image):
    """Labels are the code's own."""

    def __init__(self, cfg):
        Image.__init__(self, cfg)

    def call(self, name, *args):
        n = len(self.it.deaths)
        self.u.require(name)
        rs = self.it.call(name, list(args), self.st)
        if not rs:
            raise Rejected_()
        if len(rs) != 1:
            raise Broken("%s is not deterministic" % name)
        v, self.st = rs[0]
        return v


def real_image(cfg, build):
    from absint import Interp
    g = RealImage.__new__(RealImage)
    import native
    keep = dict(native.BASE_HANDLERS)
    Image.__init__(g, cfg)
    # start over with the code's own labels
    for h in ("use_label", "def_label", "alloc_label", "alloc_label_", "alloc_goto_label"):
        g.it.h.pop(h, None)
    g.it.h["generate_exe"] = lambda it, st, args, node: [(None, st)]
    st = g.st
    st.g["code_alloc"] = 0
    st.g["labels_ix"] = 0
    st.g["cgc_globals"] = 0
    st.g["cgc_global_alloc"] = 0
    st.mem = {k: v for k, v in st.mem.items() if base_of(k[1]) != ("arr", "code")}
    g.call("codegen_begin")
    build(g)
    n = len(g.it.deaths)
    rs = g.it.call("codegen_end", [], g.st.copy())
    return g, rs, g.it.deaths[n:]


# ----------------------------------------------------------------
def run(r):
    r.rule("calls", "every argument is evaluated once and found by the callee at its place; the result is the value of the call; the stack is balanced")
    r.rule("parameters", "a parameter is read at the place the caller puts it, at its width and signedness, and the function returns to its caller")
    r.rule("endings", "functions that end without return go back to their caller with a balanced stack; main returns 0")
    r.rule("built-in", "the code bound to a library function's name makes the system call with the function's arguments and gives back its result")
    r.rule("start-up", "globals and heap are mapped, initialisers run in source order, main gets argc and argv, and its result is the exit status")
    r.rule("linking", "functions used but not defined, and functions defined twice, are rejected")
    r.trusted += ["x86 decoder lib/x86dec.py and abstract machine lib/native.py", "system call numbers and register conventions of the three targets"]
    r.assumptions += ["system calls change only their result register, the registers the ABI says, and the buffer of read"]
    quick = r.tier != "thorough"
    tasks = []

    def comp(cfg, f):
        def task(r):
            g = Gen(cfg)
            p = Prover(r, g, False)
            p.safe = "safe" in cfg
            f(p, g, g.W, quick)
            r.use(g.u, g.it.funcs_seen)
        return task
    for cfg in ("i386", "x64"):
        tasks.append((cfg + " calls", comp(cfg, calls)))
        tasks.append((cfg + " functions", comp(cfg, functions)))
    for cfg in ("i386", "x64", "mac"):
        tasks.append((cfg + " built-in", lambda r, cfg=cfg: builtins(r, cfg)))
        tasks.append((cfg + " start-up", lambda r, cfg=cfg: startups(r, cfg)))
        tasks.append((cfg + " linking", lambda r, cfg=cfg: linking(r, cfg)))
    r.parallel(tasks)
    r.expect("calls", 100)
    r.expect("parameters", 80)
    r.expect("endings", 20)
    r.expect("built-in", 30)
    r.expect("start-up", 30)
    r.expect("linking", 20)
