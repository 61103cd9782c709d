"""A disjunctive (path-set) abstract interpreter for the C subset pnut is
written in.

It never runs pnut.  Abstract values are integer constants, string literals,
and linear/uninterpreted terms over unknowns; every unknown carries an abstract
domain (finite set / interval / exclusions) refined by the branches taken, so
infeasible arms of dispatchers disappear without any solver.  Calls are either
summarised by a client handler, inlined, or havocked through the transitive
mod-set of the callee.  Loops whose condition is not a constant are abstracted:
every variable the body may modify is havocked (minus those proved invariant by
one inductive step), and the body's effect traces appear in the path trace as a
`("loop", where, {traces})` node.
"""
import operator
import sys
from pycparser import c_ast
from frontend import Broken, walk, local_names, params, parse_const, fold, loc

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- terms
# int | ("s",text) | ("v",name) | ("o",op,*args) | ("arr",name)
# | ("lin",const,((atom,coef),...))


def is_int(t):
    return isinstance(t, int)


def lin_parts(t):
    if isinstance(t, int):
        return t, {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: repr(x[0]))
    return ("lin", c, tuple(items))


def t_add(a, b, sb=1):
    if type(b) is int:
        if type(a) is int:
            return a + sb * b
        if b == 0:
            return a
        if a[0] == "lin":
            c = a[1] + sb * b
            if c == 0 and len(a[2]) == 1 and a[2][0][1] == 1:
                return a[2][0][0]
            return ("lin", c, a[2])
        return ("lin", sb * b, ((a, 1),))
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, d)


def t_scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


COMM = {"&", "|", "^", "*", "=="}


def t_bin(op, a, b):
    if is_int(a) and is_int(b):
        v = fold(op, a, b)
        if v is not None:
            return v
        return ("o", op, a, b)
    if op == "+":
        return t_add(a, b)
    if op == "-":
        return t_add(a, b, -1)
    if op == "*":
        if is_int(a):
            return t_scale(b, a)
        if is_int(b):
            return t_scale(a, b)
    if op == "<<" and is_int(b) and 0 <= b < 63:
        return t_scale(a, 1 << b)
    if op in COMM and repr(a) > repr(b):
        a, b = b, a
    return ("o", op, a, b)


def atoms(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        if t[0] == "lin":
            for a, _ in t[2]:
                atoms(a, acc)
        elif t[0] == "o":
            acc.add(t)
            for x in t[2:]:
                atoms(x, acc)
        elif t[0] in ("v", "arr"):
            acc.add(t)
    return acc


# ---------------------------------------------------------------- domains
class Dom:
    __slots__ = ("lo", "hi", "ne", "eq")

    def __init__(self, lo=None, hi=None, ne=frozenset(), eq=None):
        self.lo, self.hi, self.ne, self.eq = lo, hi, ne, eq

    def norm(self):
        """None when empty."""
        if self.eq is not None:
            eq = frozenset(v for v in self.eq if (self.lo is None or v >= self.lo)
                           and (self.hi is None or v <= self.hi) and v not in self.ne)
            if not eq:
                return None
            return Dom(min(eq), max(eq), frozenset(), eq)
        lo, hi, ne = self.lo, self.hi, self.ne
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        if lo is not None and hi is not None:
            if lo > hi:
                return None
            if lo == hi:
                return Dom(lo, hi, frozenset(), frozenset([lo]))
        return Dom(lo, hi, ne, None)

    def key(self):
        return (self.lo, self.hi, self.ne, self.eq)

    def __repr__(self):
        return "Dom(%r,%r,ne=%r,eq=%r)" % (self.lo, self.hi, sorted(self.ne), sorted(self.eq) if self.eq is not None else None)


TOP = Dom()


def const_dom(v):
    return Dom(v, v, frozenset(), frozenset([v]))


def dom_cmp(d, op, k):
    """Truth of (x op k) for x in d: True/False/None."""
    if d.eq is not None:
        vals = {bool(fold(op, v, k)) for v in d.eq}
        return vals.pop() if len(vals) == 1 else None
    lo, hi = d.lo, d.hi
    if op == "==":
        if k in d.ne or (lo is not None and k < lo) or (hi is not None and k > hi):
            return False
        return None
    if op == "!=":
        r = dom_cmp(d, "==", k)
        return None if r is None else not r
    if op == "<":
        if hi is not None and hi < k: return True
        if lo is not None and lo >= k: return False
        return None
    if op == "<=":
        return dom_cmp(d, "<", k + 1)
    if op == ">":
        r = dom_cmp(d, "<", k + 1)
        return None if r is None else not r
    if op == ">=":
        r = dom_cmp(d, "<", k)
        return None if r is None else not r
    return None


def dom_refine(d, op, k):
    """Domain of x restricted to (x op k); None when empty."""
    lo, hi, ne, eq = d.lo, d.hi, d.ne, d.eq
    if eq is not None:
        eq = frozenset(v for v in eq if fold(op, v, k))
        return Dom(None, None, frozenset(), eq).norm() if eq else None
    if op == "==":
        if dom_cmp(d, "==", k) is False:
            return None
        return const_dom(k)
    if op == "!=":
        return Dom(lo, hi, ne | {k}, None).norm()
    if op == "<":
        hi = k - 1 if hi is None else min(hi, k - 1)
    elif op == "<=":
        hi = k if hi is None else min(hi, k)
    elif op == ">":
        lo = k + 1 if lo is None else max(lo, k + 1)
    elif op == ">=":
        lo = k if lo is None else max(lo, k)
    return Dom(lo, hi, ne, None).norm()


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">=": operator.ge, ">": operator.gt, "<=": operator.le}
FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


TRACES = [None]
TRACE_IX = {}


def tr_push(t, ev):
    k = (t, ev)
    r = TRACE_IX.get(k)
    if r is None:
        r = len(TRACES)
        TRACES.append(k)
        TRACE_IX[k] = r
    return r


class State:
    __slots__ = ("env", "g", "mem", "cons", "trace", "n", "types")

    def __init__(self):
        self.env, self.g, self.mem, self.cons = {}, {}, {}, {}
        self.trace = 0
        self.n = 0

    def copy(self):
        s = State.__new__(State)
        s.env, s.g, s.mem, s.cons = dict(self.env), dict(self.g), dict(self.mem), dict(self.cons)
        s.trace, s.n = self.trace, self.n
        return s

    def emit(self, *ev):
        self.trace = tr_push(self.trace, ev)

    def events(self):
        out, t = [], self.trace
        while t:
            t, ev = TRACES[t]
            out.append(ev)
        out.reverse()
        return out

    def fresh(self, hint):
        self.n += 1
        return ("v", "%s#%d" % (hint, self.n))

    def key(self):
        return (tuple(sorted(self.env.items(), key=lambda x: x[0])),
                tuple(sorted(self.g.items(), key=lambda x: x[0])),
                tuple(sorted(((repr(k), repr(v)) for k, v in self.mem.items()))),
                tuple(sorted(((repr(k), v.key()) for k, v in self.cons.items()), key=lambda x: x[0])),
                self.trace)

    # ---- domains
    def dom(self, t):
        if is_int(t):
            return const_dom(t)
        c, d = lin_parts(t)
        k, sign = norm_key(d)
        dm = self.cons.get(k)
        g = key_gcd = k[0][1] if len(k) == 1 else 1
        if dm is None:
            dm = self._sum_dom(k)
        if len(k) == 1 and key_gcd != 1:
            pass
        if sign < 0:
            dm = Dom(None if dm.hi is None else -dm.hi, None if dm.lo is None else -dm.lo,
                     frozenset(-x for x in dm.ne), None if dm.eq is None else frozenset(-x for x in dm.eq))
        if c:
            dm = Dom(None if dm.lo is None else dm.lo + c, None if dm.hi is None else dm.hi + c,
                     frozenset(x + c for x in dm.ne), None if dm.eq is None else frozenset(x + c for x in dm.eq))
        return dm

    def _sum_dom(self, k):
        if len(k) == 1 and k[0][1] == 1:
            return intrinsic_dom(self, k[0][0])
        lo = hi = 0
        for a, co in k:
            d = self.dom(a)
            l, h = (d.lo, d.hi) if co > 0 else (d.hi, d.lo)
            lo = None if lo is None or l is None else lo + co * l
            hi = None if hi is None or h is None else hi + co * h
        return Dom(lo, hi)

    def resolve(self, t):
        """Substitute atoms whose domain is a single value."""
        if type(t) is int or not self.cons:
            return t
        if t[0] == "lin":
            c, d = t[1], {}
            for a, k in t[2]:
                v = self.resolve(a)
                vc, vd = lin_parts(v)
                c += k * vc
                for x, kk in vd.items():
                    d[x] = d.get(x, 0) + k * kk
            return mk_lin(c, d)
        if t[0] == "v":
            dm = self.cons.get(((t, 1),))
            if dm is not None and dm.eq is not None and len(dm.eq) == 1:
                return next(iter(dm.eq))
            return t
        if t[0] == "o":
            dm = self.cons.get(((t, 1),))
            if dm is not None and dm.eq is not None and len(dm.eq) == 1:
                return next(iter(dm.eq))
            return t
        return t

    def compare(self, op, a, b):
        """True / False / None"""
        if type(a) is int and type(b) is int:
            return CMP[op](a, b)
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "s" and b[0] == "s":
            return None
        for x, y in ((a, b), (b, a)):
            if is_int(y) and y == 0 and isinstance(x, tuple) and (x[0] in ("s", "arr") or (
                    x[0] == "lin" and len(x[2]) == 1 and x[2][0][1] == 1 and x[2][0][0][0] in ("s", "arr"))):
                if op == "==": return False
                if op == "!=": return True
        d = t_add(a, b, -1)
        c, m = lin_parts(d)
        if not m:
            return bool(fold(op, c, 0))
        k, sign = norm_key(m)
        dm = self.cons.get(k)
        if dm is None:
            dm = self._sum_dom(k)
        rhs = -c * sign
        o = op if sign > 0 else FLIP[op]
        g = 0
        from math import gcd
        for _, co in k:
            g = gcd(g, co)
        if g > 1 and o in ("==", "!=") and rhs % g:
            return o == "!="
        r = dom_cmp(dm, o, rhs)
        if r is None and len(k) == 1 and g > 1:
            return dom_cmp(self.dom(k[0][0]), o, unscale(o, rhs, g))
        return r

    def assume(self, op, a, b):
        """Refine in place; False when the state becomes infeasible."""
        r = self.compare(op, a, b)
        if r is not None:
            return r
        d = t_add(self.resolve(a), self.resolve(b), -1)
        c, m = lin_parts(d)
        k, sign = norm_key(m)
        dm = self.cons.get(k)
        if dm is None:
            dm = self._sum_dom(k)
        o = op if sign > 0 else FLIP[op]
        nd = dom_refine(dm, o, -c * sign)
        if nd is None:
            return False
        self.cons[k] = nd
        if len(k) == 1 and k[0][1] > 1 and o == "!=":
            at = ((k[0][0], 1),)
            nn = dom_refine(self.cons.get(at) or self._sum_dom(at), o, -c * sign // k[0][1])
            if nn is None:
                return False
            self.cons[at] = nn
        # k = coef * atom: propagate to the atom itself
        if len(k) == 1 and k[0][1] > 1:
            co = k[0][1]
            at = ((k[0][0], 1),)
            da = self.cons.get(at) or self._sum_dom(at)
            lo = None if nd.lo is None else -((-nd.lo) // co)
            hi = None if nd.hi is None else nd.hi // co
            eq = None if nd.eq is None else frozenset(x // co for x in nd.eq if x % co == 0)
            nn = Dom(lo if da.lo is None else da.lo if lo is None else max(lo, da.lo),
                     hi if da.hi is None else da.hi if hi is None else min(hi, da.hi), da.ne,
                     eq if da.eq is None else (da.eq if eq is None else da.eq & eq)).norm()
            if nn is None:
                return False
            self.cons[at] = nn
        return True


def unscale(op, rhs, g):
    """Bound of x equivalent to g*x op rhs (rhs a multiple of g for == and !=)."""
    if op in ("<", ">="):
        return -((-rhs) // g)
    return rhs // g


def intrinsic_dom(st, a):
    if a[0] == "o":
        if a[1] == "&":
            for x in a[2:]:
                if is_int(x) and x >= 0:
                    return Dom(0, x)
        if a[1] == "%" and is_int(a[3]) and a[3] > 0:
            d = st.dom(a[2])
            if d.lo is not None and d.lo >= 0:
                return Dom(0, a[3] - 1)
            return Dom(-a[3] + 1, a[3] - 1)
    return TOP


def norm_key(m):
    items = sorted(((a, k) for a, k in m.items()), key=lambda x: repr(x[0]))
    if items and items[0][1] < 0:
        return tuple((a, -k) for a, k in items), -1
    return tuple(items), 1


STMT, EXPR, CONST = {}, {}, {}


# ---------------------------------------------------------------- interpreter
class Interp:
    on_unroll = None
    split_loops = False     # follow both outcomes of an undecided loop condition, up to `unroll` iterations
    def __init__(self, unit, handlers=None, inline=None, max_paths=200000, unroll=400,
                 on_load=None, on_store=None, on_global=None, on_unknown_call=None, on_backedge=None,
                 merge=True, max_depth=60, recurse=()):
        self.u = unit
        self.h = handlers or {}
        self.inline = inline or (lambda name, st, depth: True)
        self.max_paths, self.unroll, self.max_depth = max_paths, unroll, max_depth
        self.on_load, self.on_store, self.on_global = on_load, on_store, on_global
        self.on_unknown_call = on_unknown_call
        self.on_backedge = on_backedge
        self.merge = merge
        self.recurse = frozenset(recurse)
        self.stack = []
        self.steps = 0
        self.max_steps = 20000000
        self.call_nodes = []
        self.funcs_seen = set()
        self._modcache = {}
        self.deaths = []           # states that ended in a noreturn call
        self.record_deaths = True
        self.all_fixed = False     # client promises that every address is a constant offset into an array

    # ---- driver
    def call(self, name, args, st):
        """Returns list of (value, state) for paths on which `name` returns."""
        f = self.u.funcs.get(name)
        if f is None:
            raise Broken("function %s() not found in %s" % (name, self.u.name))
        self.funcs_seen.add(name)
        saved = st.env
        st.env = {}
        ps = params(f)
        if len(args) < len(ps):
            args = list(args) + [st.fresh("arg")] * (len(ps) - len(args))
        for p, a in zip(ps, args):
            st.env[p] = a
        self.stack.append(name)
        out = []
        try:
            for kind, s, v in self.block(f.body, [st]):
                if kind == "exit":
                    continue
                if kind in ("normal", "return"):
                    s.env = dict(saved)
                    out.append((v, s))
                else:
                    raise Broken("stray %s in %s()" % (kind, name))
        finally:
            self.stack.pop()
        if self.merge:
            out = self.dedupe_v(out)
        return out

    def dedupe_v(self, lst):
        if len(lst) < 2:
            return lst
        seen, out = set(), []
        for v, s in lst:
            k = (v, s.key())
            if k not in seen:
                seen.add(k)
                out.append((v, s))
        return out

    def dedupe(self, lst):
        if len(lst) < 2:
            return lst
        seen, out = set(), []
        for s in lst:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Broken("step budget exceeded in %s (stack %s)" % (self.u.name, self.stack[-6:]))

    # ---- statements: return list of (kind, state, value)
    def block(self, node, states):
        """Execute `node` from each state."""
        if node is None:
            return [("normal", s, None) for s in states]
        res = []
        for s in states:
            res.extend(self.stmt(node, s))
        if len(res) > self.max_paths:
            raise Broken("path budget exceeded at %s" % loc(node))
        return res

    def seq(self, items, st):
        cur = [st]
        out = []
        for it in items:
            if len(cur) == 1:
                rs = self.stmt(it, cur[0])
                if len(rs) == 1:
                    if rs[0][0] != "normal":
                        out.append(rs[0])
                        cur = []
                        break
                    cur = [rs[0][1]]
                    continue
                cur = [x[1] for x in rs if x[0] == "normal"]
                out.extend(x for x in rs if x[0] != "normal")
                if self.merge:
                    cur = self.dedupe(cur)
                if not cur:
                    break
                continue
            nxt = []
            for s in cur:
                for kind, s2, v in self.stmt(it, s):
                    if kind == "normal":
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            cur = self.dedupe(nxt) if self.merge else nxt
            if len(cur) > self.max_paths:
                raise Broken("path budget exceeded at %s" % loc(it))
            if not cur:
                break
        out.extend(("normal", s, None) for s in cur)
        return out

    def stmt(self, n, st):
        self.tick()
        m = STMT.get(type(n))
        if m is None:
            m = STMT[type(n)] = getattr(Interp, "s_" + type(n).__name__, False)
        if m:
            return m(self, n, st)
        # expression statement
        out = []
        for v, s in self.eval(n, st):
            out.append(("exit", s, None) if v is DEAD else ("normal", s, None))
        return [x for x in out if x[0] != "exit"]

    def s_Compound(self, n, st):
        return self.seq(n.block_items or [], st)

    def s_EmptyStatement(self, n, st):
        return [("normal", st, None)]

    def s_Typedef(self, n, st):
        return [("normal", st, None)]

    def s_DeclList(self, n, st):
        return self.seq(n.decls, st)

    def s_Decl(self, n, st):
        if n.name is None or isinstance(n.type, c_ast.FuncDecl):
            return [("normal", st, None)]
        if isinstance(n.type, c_ast.ArrayDecl):
            st.env[n.name] = ("arr", "%s.%s" % (self.stack[-1] if self.stack else "", n.name))
            return [("normal", st, None)]
        if n.init is None:
            st.env[n.name] = ("v", "uninit.%s.%s" % (self.stack[-1] if self.stack else "", n.name))
            return [("normal", st, None)]
        out = []
        for v, s in self.eval(n.init, st):
            s.env[n.name] = v
            out.append(("normal", s, None))
        return out

    def s_If(self, n, st):
        out = []
        cs = self.cond(n.cond, st)
        if len(cs) == 1:
            b, s = cs[0]
            t = n.iftrue if b else n.iffalse
            return self.stmt(t, s) if t is not None else [("normal", s, None)]
        for b, s in cs:
            if b:
                out.extend(self.stmt(n.iftrue, s) if n.iftrue is not None else [("normal", s, None)])
            else:
                out.extend(self.stmt(n.iffalse, s) if n.iffalse is not None else [("normal", s, None)])
        return out

    def s_Return(self, n, st):
        if n.expr is None:
            return [("return", st, None)]
        return [("return", s, v) for v, s in self.eval(n.expr, st)]

    def s_Break(self, n, st):
        return [("break", st, None)]

    def s_Continue(self, n, st):
        return [("continue", st, None)]

    def s_Label(self, n, st):
        return self.stmt(n.stmt, st)

    def s_Goto(self, n, st):
        raise Broken("goto not supported by the analysis (%s)" % loc(n))

    def s_While(self, n, st):
        return self.loop(n, None, n.cond, None, n.stmt, st, False)

    def s_DoWhile(self, n, st):
        return self.loop(n, None, n.cond, None, n.stmt, st, True)

    def s_For(self, n, st):
        out = []
        inits = [st]
        if n.init is not None:
            inits = [s for k, s, v in self.stmt(n.init, st)]
        for s in inits:
            out.extend(self.loop(n, None, n.cond, n.next, n.stmt, s, False))
        return out

    def s_ExprList(self, n, st):
        return [("normal", s, None) for v, s in self.eval(n, st)]

    def s_Switch(self, n, st):
        out = []
        body = n.stmt.block_items or [] if isinstance(n.stmt, c_ast.Compound) else [n.stmt]
        for v, s in self.eval(n.cond, st):
            v = s.resolve(v)
            # dispatch
            targets = []
            default_ix = None
            cases = []
            for i, it in enumerate(body):
                for lab, j in self._labels(it):
                    cases.append((i, lab))
            rest = s
            alive = True
            for i, lab in cases:
                if lab is None:
                    default_ix = i
                    continue
                k = self.u.const_eval(lab)
                if k is None:
                    raise Broken("non-constant case label at %s" % loc(lab))
                r = rest.compare("==", v, k)
                if r is False:
                    continue
                if r is True:
                    targets.append((i, rest))
                    alive = False
                    break
                t = rest.copy()
                if t.assume("==", v, k):
                    targets.append((i, t))
                rest = rest.copy()
                if not rest.assume("!=", v, k):
                    alive = False
                    break
            if alive:
                if default_ix is not None:
                    targets.append((default_ix, rest))
                else:
                    out.append(("normal", rest, None))
            for i, t in targets:
                for kind, s2, vv in self.seq_from_case(body, i, t):
                    if kind == "break":
                        out.append(("normal", s2, None))
                    else:
                        out.append((kind, s2, vv))
        return self._merge_kinds(out)

    def _merge_kinds(self, out):
        if not self.merge or len(out) < 2:
            return out
        seen, res = set(), []
        for kind, s, v in out:
            k = (kind, v, s.key())
            if k not in seen:
                seen.add(k)
                res.append((kind, s, v))
        return res

    def _labels(self, it):
        if isinstance(it, c_ast.Case):
            yield it.expr, it
            for x in it.stmts or []:
                yield from self._labels(x) if isinstance(x, (c_ast.Case, c_ast.Default)) else ()
        elif isinstance(it, c_ast.Default):
            yield None, it
            for x in it.stmts or []:
                yield from self._labels(x) if isinstance(x, (c_ast.Case, c_ast.Default)) else ()

    def seq_from_case(self, body, i, st):
        items = []
        for it in body[i:]:
            items.append(it)
        return self.seq(items, st)

    def s_Case(self, n, st):
        return self.seq(n.stmts or [], st)

    def s_Default(self, n, st):
        return self.seq(n.stmts or [], st)

    # ---- loops
    def loop(self, n, init, cond, nxt, body, st, do_first):
        out = []
        work = [(st, 0)]
        while work:
            s, k = work.pop()
            self.tick()
            if not (do_first and k == 0):
                const_cond = cond is None or isinstance(cond, c_ast.Constant)
                if const_cond and self.all_fixed:
                    probe = (True, s) if cond is None else self.decided(cond, s)
                else:
                    probe = None if const_cond else self.decided(cond, s)
                if probe is not None and k >= self.unroll and self.on_unroll is not None:
                    self.on_unroll(n)
                if probe is None and not const_cond and self.split_loops and k < self.unroll:
                    for t, s2 in self.cond(cond, s):
                        if t is False:
                            out.append(("normal", s2, None))
                        else:
                            self.iterate(body, nxt, s2, k, work, out)
                    continue
                if probe is None or k >= self.unroll:
                    out.extend(self.abstract_loop(n, cond, nxt, body, s))
                    continue
                if probe[0] is False:
                    out.append(("normal", probe[1], None))
                    continue
                s = probe[1]
            elif cond is not None and not isinstance(cond, c_ast.Constant):
                pass
            self.iterate(body, nxt, s, k, work, out)
            if len(work) + len(out) > self.max_paths:
                raise Broken("path budget exceeded in loop at %s" % loc(n))
        return self._merge_kinds(out)

    def iterate(self, body, nxt, s, k, work, out):
        for kind, s2, v in self.stmt(body, s):
            if kind in ("normal", "continue"):
                if nxt is not None:
                    for _, s3 in self.eval(nxt, s2):
                        work.append((s3, k + 1))
                else:
                    work.append((s2, k + 1))
            elif kind == "break":
                out.append(("normal", s2, None))
            else:
                out.append((kind, s2, v))

    def decided(self, cond, s):
        """(bool, state) when the condition has a single outcome, else None."""
        t = s.copy()
        nd = len(self.deaths)
        r = self.cond(cond, t)
        del self.deaths[nd:]
        if len(r) == 1 and r[0][1].trace == s.trace:
            return r[0]
        if len(r) == 1:
            return r[0]
        return None

    def loop_mods(self, n, body, cond, nxt):
        key = id(n)
        if key in self._modcache:
            return self._modcache[key]
        names, mem = set(), False
        for part in (body, cond, nxt):
            for x in walk(part):
                tgt = None
                if isinstance(x, c_ast.Assignment):
                    tgt = x.lvalue
                elif isinstance(x, c_ast.UnaryOp) and x.op in ("++", "--", "p++", "p--"):
                    tgt = x.expr
                elif isinstance(x, c_ast.Decl) and x.name:
                    names.add(x.name)
                elif isinstance(x, c_ast.FuncCall) and isinstance(x.name, c_ast.ID):
                    c = x.name.name
                    if c in self.u.funcs:
                        names |= self.u.mods[c]
                        mem = mem or self.u.mem[c]
                    names |= self.handler_mods(c)
                if tgt is not None:
                    while isinstance(tgt, c_ast.Cast):
                        tgt = tgt.expr
                    if isinstance(tgt, c_ast.ID):
                        names.add(tgt.name)
                    else:
                        mem = True
        self._modcache[key] = (names, mem)
        return names, mem

    def handler_mods(self, name):
        h = self.h.get(name)
        return getattr(h, "mods", frozenset()) if h is not None else frozenset()

    def abstract_loop(self, n, cond, nxt, body, st):
        names, mem = self.loop_mods(n, body, cond, nxt)
        invariant = set()
        for _ in range(4):
            H = st.copy()
            H.trace = 0
            hv = {}
            for nm in sorted(names):
                if nm in invariant:
                    continue
                f = ("v", "L%s.%s#%d" % (loc(n).split(":")[-1], nm, H.n))
                if nm in H.env:
                    H.env[nm] = f
                    hv[nm] = ("env", f)
                elif nm in self.u.globals or nm in H.g:
                    H.g[nm] = f
                    hv[nm] = ("g", f)
            H.n += 1
            if mem:
                H.mem = {k: v for k, v in H.mem.items() if k[0] == "pin"}
            base_n = H.n
            nd = len(self.deaths)
            backs, exits = [], []
            heads = [(True, H)] if cond is None else self.cond(cond, H.copy())
            for b, s in heads:
                if not b:
                    exits.append(("normal", s, None))
                    continue
                for kind, s2, v in self.stmt(body, s):
                    if kind in ("normal", "continue"):
                        if nxt is not None:
                            for _, s3 in self.eval(nxt, s2):
                                backs.append(s3)
                        else:
                            backs.append(s2)
                    elif kind == "break":
                        exits.append(("normal", s2, None))
                    else:
                        exits.append((kind, s2, v))
            newinv = {nm for nm, (w, f) in hv.items()
                      if backs and all((b.env if w == "env" else b.g).get(nm) == f for b in backs)}
            if not newinv:
                break
            invariant |= newinv
            del self.deaths[nd:]
        if self.on_backedge is not None:
            self.on_backedge(n, st, H, backs)
        bodies = frozenset(tuple(b.events()) for b in backs)
        out = []
        dedupe = set()
        for kind, s, v in exits:
            part = s.events()
            s.trace = st.trace
            if bodies and bodies != frozenset([()]):
                s.emit("loop", loc(n), bodies)
            for e in part:
                s.trace = tr_push(s.trace, e)
            s.n = max(s.n, base_n) + 1
            k = (kind, v, s.key())
            if k not in dedupe:
                dedupe.add(k)
                out.append((kind, s, v))
        return out

    # ---- conditions
    def cond(self, e, st):
        """List of (bool, state)."""
        if type(e) is c_ast.ID:
            return [r for v, s in self.e_ID(e, st) for r in self.split("!=", v, 0, s)]
        if isinstance(e, c_ast.BinaryOp) and e.op in ("&&", "||"):
            out = []
            for b, s in self.cond(e.left, st):
                if (e.op == "&&") == b:
                    out.extend(self.cond(e.right, s))
                else:
                    out.append((b, s))
            return out
        if isinstance(e, c_ast.UnaryOp) and e.op == "!":
            return [(not b, s) for b, s in self.cond(e.expr, st)]
        if isinstance(e, c_ast.BinaryOp) and e.op in NEG:
            out = []
            for a, s in self.eval(e.left, st):
                for b, s2 in self.eval(e.right, s):
                    out.extend(self.split(e.op, a, b, s2))
            return out
        if isinstance(e, c_ast.ExprList):
            cur = [st]
            for x in e.exprs[:-1]:
                cur = [s2 for s in cur for _, s2 in self.eval(x, s)]
            return [r for s in cur for r in self.cond(e.exprs[-1], s)]
        out = []
        for v, s in self.eval(e, st):
            out.extend(self.split("!=", v, 0, s))
        return out

    def split(self, op, a, b, s):
        r = s.compare(op, a, b)
        if r is not None:
            return [(r, s)]
        t = s.copy()
        out = []
        if t.assume(op, a, b):
            out.append((True, t))
        if s.assume(NEG[op], a, b):
            out.append((False, s))
        return out

    # ---- expressions: list of (value, state)
    def eval(self, e, st):
        self.tick()
        m = EXPR.get(type(e))
        if m is None:
            m = EXPR[type(e)] = getattr(Interp, "e_" + type(e).__name__)
        return m(self, e, st)

    def e_Constant(self, e, st):
        r = CONST.get(e)
        if r is None:
            r = CONST[e] = parse_const(e)
        return [(r, st)]

    def e_ID(self, e, st):
        n = e.name
        if n in st.env:
            return [(st.resolve(st.env[n]), st)]
        if n in self.u.consts:
            return [(self.u.consts[n], st)]
        return [(self.gread(n, st), st)]

    def gread(self, n, st):
        if n in st.g:
            return st.resolve(st.g[n])
        if self.on_global is not None:
            v = self.on_global(n, st)
            if v is not None:
                st.g[n] = v
                return v
        d = self.u.globals.get(n)
        if d is not None and isinstance(d.type, c_ast.ArrayDecl):
            v = ("arr", n)
        else:
            v = ("v", "g." + n)
        st.g[n] = v
        return st.resolve(v)

    def e_Cast(self, e, st):
        return self.eval(e.expr, st)

    def e_ExprList(self, e, st):
        cur = [(None, st)]
        for x in e.exprs:
            cur = [r for _, s in cur for r in self.eval(x, s)]
        return cur

    def e_InitList(self, e, st):
        return [(st.fresh("initlist"), st)]

    def e_TernaryOp(self, e, st):
        out = []
        for b, s in self.cond(e.cond, st):
            out.extend(self.eval(e.iftrue if b else e.iffalse, s))
        return out

    def e_BinaryOp(self, e, st):
        if e.op in ("&&", "||") or e.op in NEG:
            return [(int(b), s) for b, s in self.cond(e, st)]
        out = []
        for a, s in self.eval(e.left, st):
            if type(a) is int and e.op in ("+", "-"):
                for b, s2 in self.eval(e.right, s):
                    out.append((a + b if e.op == "+" else a - b, s2) if type(b) is int else (t_bin(e.op, s2.resolve(a), s2.resolve(b)), s2))
                continue
            for b, s2 in self.eval(e.right, s):
                rb = s2.resolve(b)
                if rb == 0 and e.op in ("/", "%"):
                    self.deaths.append(("division by zero", (), s2, e, tuple(self.stack)))
                    continue
                out.append((t_bin(e.op, s2.resolve(a), rb), s2))
        return out

    def e_UnaryOp(self, e, st):
        op = e.op
        if op == "sizeof":
            v = self.u.const_eval(e)
            if v is None:
                v = ("o", "sizeof", repr_type(e.expr))
            return [(v, st)]
        if op == "!":
            return [(int(not b), s) for b, s in self.cond(e.expr, st)]
        if op == "-":
            return [(t_scale(s.resolve(v), -1), s) for v, s in self.eval(e.expr, st)]
        if op == "+":
            return self.eval(e.expr, st)
        if op == "~":
            return [(~v if is_int(v) else ("o", "~", v), s) for v, s in self.eval(e.expr, st)]
        if op in ("++", "--", "p++", "p--"):
            out = []
            for lv, s in self.lval(e.expr, st):
                old = self.load(lv, s)
                new = t_add(old, 1, 1 if "+" in op else -1)
                for s2 in self.store(lv, new, s, e):
                    out.append((old if op[0] == "p" else new, s2))
            return out
        if op == "*":
            out = []
            for lv, s in self.lval(e, st):
                out.append((self.load(lv, s), s))
            return out
        if op == "&":
            out = []
            for lv, s in self.lval(e.expr, st):
                if lv[0] == "mem":
                    out.append((lv[1], s))
                else:
                    out.append((("o", "addr", lv[1]), s))
            return out
        raise Broken("unary operator %s at %s" % (op, loc(e)))

    def e_Assignment(self, e, st):
        out = []
        for lv, s in self.lval(e.lvalue, st):
            for v, s2 in self.eval(e.rvalue, s):
                if e.op != "=":
                    old = self.load(lv, s2)
                    v = t_bin(e.op[:-1], s2.resolve(old), s2.resolve(v))
                for s3 in self.store(lv, v, s2, e):
                    out.append((v, s3))
        return out

    def e_ArrayRef(self, e, st):
        return [(self.load(lv, s), s) for lv, s in self.lval(e, st)]

    def e_StructRef(self, e, st):
        return [(self.load(lv, s), s) for lv, s in self.lval(e, st)]

    # ---- lvalues
    def lval(self, e, st):
        if isinstance(e, c_ast.ID):
            if e.name in st.env:
                return [(("env", e.name), st)]
            return [(("g", e.name), st)]
        if isinstance(e, c_ast.Cast):
            return self.lval(e.expr, st)
        if isinstance(e, c_ast.UnaryOp) and e.op == "*":
            return [(("mem", s.resolve(v), e), s) for v, s in self.eval(e.expr, st)]
        if isinstance(e, c_ast.ArrayRef):
            out = []
            for a, s in self.eval(e.name, st):
                for i, s2 in self.eval(e.subscript, s):
                    out.append((("mem", t_add(s2.resolve(a), s2.resolve(i)), e), s2))
            return out
        if isinstance(e, c_ast.StructRef):
            out = []
            if e.type == "->":
                for p, s in self.eval(e.name, st):
                    out.append((("fld", p, e.field.name, e), s))
            else:
                for p, s in self.lval(e.name, st):
                    out.append((("fld", ("o", "addr", p[1]), e.field.name, e), s))
            return out
        raise Broken("unsupported lvalue at %s" % loc(e))

    def load(self, lv, st):
        k = lv[0]
        if k == "env":
            return st.resolve(st.env[lv[1]])
        if k == "g":
            if lv[1] in self.u.consts:
                return self.u.consts[lv[1]]
            return self.gread(lv[1], st)
        if k == "mem":
            addr = lv[1]
            if self.on_load is not None:
                v = self.on_load(addr, st, lv[2])
                if v is not None:
                    return v
            if isinstance(addr, tuple):
                if addr[0] == "s":
                    return ord(addr[1][0]) if addr[1] else 0
                if addr[0] == "lin" and len(addr[2]) == 1 and addr[2][0][0][0] == "s":
                    txt = addr[2][0][0][1]
                    i = addr[1]
                    return ord(txt[i]) if 0 <= i < len(txt) else 0
            key = ("m", addr)
            if key not in st.mem:
                st.mem[key] = st.fresh("ld")
            return st.resolve(st.mem[key])
        if k == "fld":
            key = ("f", lv[2], lv[1])
            if key not in st.mem:
                st.mem[key] = st.fresh("fld." + lv[2])
            return st.resolve(st.mem[key])
        raise Broken("load " + k)

    def store(self, lv, v, st, node):
        k = lv[0]
        if k == "env":
            st.env[lv[1]] = v
            return [st]
        if k == "g":
            st.g[lv[1]] = v
            h = self.h.get("=" + lv[1])
            if h is not None:
                h(self, st, v, node)
            return [st]
        if k == "mem":
            addr = lv[1]
            if self.on_store is not None:
                r = self.on_store(addr, v, st, node)
                if r is not None:
                    return r
            if fixed(addr):
                # two different constant offsets into arrays never alias
                if self.all_fixed:
                    st.mem[("m", addr)] = v
                    return [st]
                cand = [k for k in st.mem if k[0] == "m" and not fixed(k[1])]
            else:
                cand = [k for k in st.mem if k[0] == "m"]
            for key in cand:
                if key[1] != addr and may_alias(st, key[1], addr):
                    del st.mem[key]
            st.mem[("m", addr)] = v
            return [st]
        if k == "fld":
            if not (self.all_fixed and fixed(lv[1])):
                for key in list(st.mem):
                    if key[0] == "f" and key[1] == lv[2] and key[2] != lv[1]:
                        del st.mem[key]
            st.mem[("f", lv[2], lv[1])] = v
            return [st]
        raise Broken("store " + k)

    # ---- calls
    def e_FuncCall(self, e, st):
        if not isinstance(e.name, c_ast.ID):
            raise Broken("indirect call at %s" % loc(e))
        name = e.name.name
        cur = [([], st)]
        for a in (e.args.exprs if e.args is not None else []):
            nxt = []
            for vs, s in cur:
                for v, s2 in self.eval(a, s):
                    nxt.append((vs + [v], s2))
            cur = nxt
        out = []
        for vs, s in cur:
            vs = [s.resolve(v) if v is not None else None for v in vs]
            out.extend(self.do_call(name, vs, s, e))
        return out

    def do_call(self, name, args, st, node):
        self.tick()
        h = self.h.get(name)
        if h is not None:
            r = h(self, st, args, node)
            if r is not NotImplemented:
                return r
        if name in self.u.noreturn:
            st.emit("die", name, args[0] if args else None, loc(node))
            if self.record_deaths:
                self.deaths.append((name, tuple(args), st, node, tuple(self.stack)))
            return []
        if name in self.u.funcs:
            if (name not in self.stack or name in self.recurse) and len(self.stack) < self.max_depth and self.inline(name, st, len(self.stack)):
                return self.call(name, args, st)
            return self.havoc_call(name, args, st, node)
        if self.on_unknown_call is not None:
            return self.on_unknown_call(self, name, args, st, node)
        return [(st.fresh("ext." + name), st)]

    def havoc_call(self, name, args, st, node):
        for m in sorted(self.u.mods[name]):
            st.g[m] = st.fresh("hv." + m)
        if self.u.mem[name]:
            st.mem = {k: v for k, v in st.mem.items() if k[0] == "pin"}
        return [(st.fresh("ret." + name), st)]


DEAD = object()


def repr_type(n):
    return str(type(n).__name__)


def base_of(t):
    c, d = lin_parts(t)
    bases = [a for a in d if isinstance(a, tuple) and a[0] == "arr"]
    return bases[0] if len(bases) == 1 else None


_fixed = {}


def fixed(a):
    """Is the address a constant offset into one array?"""
    r = _fixed.get(a)
    if r is None:
        r = isinstance(a, tuple) and (a[0] == "arr" or (a[0] == "lin" and len(a[2]) == 1 and a[2][0][1] == 1 and a[2][0][0][0] == "arr"))
        _fixed[a] = r
    return r


def may_alias(st, a, b):
    ba, bb = base_of(a), base_of(b)
    if ba is not None and bb is not None and ba != bb:
        return False
    return st.compare("==", a, b) is not False


def ret(*pairs):
    return list(pairs)
