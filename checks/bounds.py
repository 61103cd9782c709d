"""T01: the fixed tables of the compiler are never written past their end: growing over the end stops the compilation."""
from pycparser import c_ast
from frontend import CONFIGS, Broken, unit, loc, params
from absint import Interp, State, t_add, t_scale, lin_parts, atoms, is_int

CONFIGS.setdefault("sh-ccode", ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DSH_INCLUDE_C_CODE"])
HINTS = {"heap_alloc": "heap", "string_pool_alloc": "string_pool", "text_alloc": "text_pool", "code_alloc": "code"}
Q = ("v", "q0")


def tables(u):
    out = {}
    for n, d in u.globals.items():
        if isinstance(d.type, c_ast.ArrayDecl) and d.type.dim is not None:
            k = u.const_eval(d.type.dim)
            if k is not None:
                out[n] = k
    return out


def ints(u):
    return {n for n, d in u.globals.items() if isinstance(d.type, c_ast.TypeDecl) and n not in u.consts and not isinstance(d.type.type, (c_ast.Struct, c_ast.Union))}


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        for _, c in x.children():
            st.append(c)


def ids(n):
    return {x.name for x in walk(n) if isinstance(x, c_ast.ID)}


class Facts:
    """Syntactic facts of one function."""

    def __init__(self, u, name, f, tabs, gl):
        self.sets = set()          # globals assigned here
        self.subs = {}             # table -> globals in subscripts of it
        self.stores = set()        # tables stored to
        self.calls = set()
        self.cmp = set()           # (global, constant)
        self.consts = []           # (table, index, node) constant subscripts
        self.size = 0
        self.incr = set()
        loc_names = {x.name for x in walk(f.body) if isinstance(x, c_ast.Decl) and x.name} | set(params(f))
        for x in walk(f.body):
            self.size += 1
            if isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.ID) and x.lvalue.name in gl - loc_names:
                self.sets.add(x.lvalue.name)
                if x.op == "+=" or x.op == "=" and x.lvalue.name in ids(x.rvalue):
                    self.incr.add(x.lvalue.name)
            elif isinstance(x, c_ast.UnaryOp) and x.op in ("++", "--", "p++", "p--") and isinstance(x.expr, c_ast.ID) and x.expr.name in gl - loc_names:
                self.sets.add(x.expr.name)
                if "+" in x.op:
                    self.incr.add(x.expr.name)
            elif isinstance(x, c_ast.FuncCall) and isinstance(x.name, c_ast.ID):
                self.calls.add(x.name.name)
            elif isinstance(x, c_ast.BinaryOp) and x.op in ("<", "<=", ">", ">=", "==", "!="):
                for a, b in ((x.left, x.right), (x.right, x.left)):
                    k = u.const_eval(b)
                    if k is not None:
                        self.cmp |= {(g, k) for g in ids(a) & gl}
            if isinstance(x, c_ast.ArrayRef) and isinstance(x.name, c_ast.ID) and x.name.name in tabs and x.name.name not in loc_names:
                t = x.name.name
                self.subs.setdefault(t, set()).update((ids(x.subscript) & gl) - loc_names)
                k = u.const_eval(x.subscript)
                if k is not None:
                    self.consts.append((t, k, x))
            if isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.ArrayRef) and isinstance(x.lvalue.name, c_ast.ID):
                self.stores.add(x.lvalue.name.name)


def parts(e):
    return {e} if isinstance(e, tuple) and e[0] != "lin" else set(a for a, _ in e[2]) if isinstance(e, tuple) else set()


def analyse(u, tab, size, g, fname, step, hi, facts):
    """[(kind, where, message)] problems of one function under the invariant 0 <= g <= hi, g a multiple of step; None when it is too large to decide."""
    bad = []
    seen = [0]

    def index(addr):
        if addr == ("arr", tab):
            return 0
        if isinstance(addr, tuple) and addr[0] == "lin" and (("arr", tab), 1) in addr[2]:
            return t_add(addr, ("arr", tab), -1)
        return None

    def access(addr, st, node, what):
        i = index(addr)
        if i is None:
            return
        i = st.resolve(i)
        at = {i} if isinstance(i, tuple) and i[0] != "lin" else set(a for a, _ in i[2]) if isinstance(i, tuple) else set()
        if at and Q not in at:
            return                # an index that does not come from the counter
        if at - {Q} or is_int(i) and what == "reads":
            return
        now = st.resolve(st.g.get(g, 0))
        if isinstance(now, tuple) and set(parts(now)) - {Q}:
            return                # the counter has grown by an amount only known when the compiler runs
        seen[0] += 1
        if st.compare(">=", i, 0) is not True or st.compare("<=", i, size - 1) is not True:
            off = t_add(i, t_scale(Q, step), -1) if at else i
            bad.append((what, loc(node), "%s %s[%s%s] with the bound of the table not established" % (what, tab, g if at else "", ("%+d" % off if off else "") if is_int(off) and at else "" if at else str(i))))

    def on_store(addr, v, st, node):
        access(addr, st, node, "stores to")
        return None

    def on_load(addr, st, node):
        access(addr, st, node, "reads")
        return None

    def inline(name, st, depth):
        return depth < 8 and (g in u.mods[name] or tab in facts[name].subs) and facts[name].size < 700

    it = Interp(u, inline=inline, max_paths=3000, unroll=30, max_depth=30, on_store=on_store)
    it.on_load = on_load
    it.max_steps = 150000
    st = State()
    st.g[g] = t_scale(Q, step)
    st.assume(">=", Q, 0)
    st.assume("<=", Q, hi // step)
    args = []
    for p in params(u.funcs[fname]):
        a = ("v", "arg." + p)
        st.assume(">=", a, 0)
        args.append(a)
    try:
        for v, s in it.call(fname, args, st):
            e = s.resolve(s.g.get(g, ("v", "?")))
            at = parts(e)
            if at - {Q} and Q not in at:
                continue            # set back to a value kept elsewhere
            seen[0] += 1
            if at <= {Q} and s.compare(">=", e, 0) is not True or s.compare("<=", e, hi) is not True:
                bad.append(("grows", fname, "leaves %s over the limit that its other uses of %s rely on" % (g, tab)))
            elif at - {Q}:
                pass
            elif is_int(e) and e % step or not is_int(e) and t_add(e, t_scale(Q, step), -1) != 0 and not (is_int(t_add(e, t_scale(Q, step), -1)) and t_add(e, t_scale(Q, step), -1) % step == 0):
                bad.append(("grows", fname, "leaves %s out of step with the entries of %s" % (g, tab)))
    except Broken:
        return None, it.funcs_seen, 0
    return bad, it.funcs_seen, seen[0]


def run_cfg(r, cfg):
    u = unit(cfg)
    tabs, gl = tables(u), ints(u)
    facts = {n: Facts(u, n, f, tabs, gl) for n, f in u.funcs.items()}
    pairs = {}
    grown = set().union(*[f.incr for f in facts.values()])
    for n, f in facts.items():
        for t, gs in f.subs.items():
            for g in gs & f.incr if t not in HINTS.values() else ():
                pairs.setdefault((t, g), set())
        for g, k in f.cmp:
            for t, N in tabs.items():
                if N == k and N > 300 and g in grown and not any(h == g for _, h in pairs):
                    pairs.setdefault((t, g), set())
    for g, t in HINTS.items():
        if t in tabs and g in grown:
            pairs.setdefault((t, g), set())
    done = set()
    for (t, g) in sorted(pairs):
        fs = set()
        mod = {n for n, f in facts.items() if g in f.sets}
        for n, f in facts.items():
            if g in f.sets or g in f.subs.get(t, ()) or t in f.stores and f.calls & mod:
                fs.add(n)
        best = None
        N = tabs[t]
        init = getattr(u.globals[g], "init", None)
        init = 0 if init is None else u.const_eval(init)
        for step in (1, 2, 3, 4):
            for hi in ((N, N - 1) if step == 1 else (N - N % step,)):
                if init is None or init % step or init > hi:
                    continue
                res = {}
                total = 0
                for n in sorted(fs):
                    b, seen, k = analyse(u, t, N, g, n, step, hi, facts)
                    res[n] = (b, seen, k)
                    total += len({x[:2] for x in b or ()})
                if best is None or total < best[0]:
                    best = (total, step, hi, res)
                if total == 0:
                    break
            if best and best[0] == 0:
                break
        if best is None:
            continue
        total, step, hi, res = best
        for n, (b, seen, k) in sorted(res.items()):
            if b is None:
                r.assumptions.append("%s() [%s] is too large for this analysis: its use of %s is not decided" % (n, cfg, t))
                continue
            if not k:
                continue
            msg = "; ".join(sorted({x[2] for x in b}))
            r.ob("tables", not b, "%s in %s" % (t, n), "%s [%s]" % (n, cfg), b and "%s() %s: with a full table the compiler writes over other data instead of stopping" % (n, msg),
                 sample=None if b else "%s: every access of %s at %s stays below %d; %s stays within 0..%d in steps of %d" % (n, t, g, N, g, hi, step))
            r.use(u, list(seen))
            done.add((t, n))
    for n, f in sorted(facts.items()):
        for t, k, node in f.consts:
            ok = 0 <= k < tabs[t]
            r.ob("constant index", ok, "%s[%d] in %s" % (t, k, n), loc(node), "%s() uses %s[%d], the table has %d entries" % (n, t, k, tabs[t]))
    if not any(t in tabs for t in ("heap", "string_pool")):
        raise Broken("the tables of the compiler were not found")


def run(r):
    r.rule("tables", "every store and load at a table's growth counter is inside the table, for every value of the counter that its updates allow; every update keeps the counter in that range or ends the compilation")
    r.rule("constant index", "a constant subscript of a fixed array is inside it")
    r.assumptions += ["sizes and arguments passed to the allocation functions are not negative", "a counter set back to a value kept in another variable had that value before"]
    cfgs = ["sh", "sh-release", "sh-ccode", "x64", "i386", "x64-safe"] if r.tier == "quick" else list(CONFIGS)
    r.parallel([(c, lambda q, c=c: run_cfg(q, c)) for c in cfgs if c in CONFIGS])
    r.expect("tables", 100)
