"""Shell back end: functions calling each other keep their own parameters, locals and temporaries."""
import random
from frontend import Broken
from shref import show
from shcheck import Case, check
from sh_exprs import Suite, has, call_in_lazy

A, B, C, N = ("id", "?a"), ("id", "?b"), ("id", "?c"), ("id", "?n")
G, K = ("glo", "?g"), ("glo", "?k")
VARS = ["?a", "?b", "?c", "?n", "?s", "?t"]


def num(n):
    return ("num", n)


def h(*a):
    return ("call", "?h", list(a))


def asg(l, e):
    return ("expr", ("asg", "", l, e))


def bin_(o, a, b):
    return ("bin", o, a, b)


def call(f, *a):
    return ("call", f, list(a))


def ret(e=None):
    return ("return", e)


# callees: name -> (params, body, void). They use the names the callers use.
CALLEES = {
    "nothing": ([], [], True),
    "const": ([], [ret(num(7))], False),
    "id": (["?a"], [ret(A)], False),
    "clobber": (["?a", "?b"], [asg(A, num(1)), asg(B, num(2)), ret(bin_("+", A, B))], False),
    "locals": (["?b"], [("decl", [("?a", num(5)), ("?c", B)]), asg(A, bin_("*", A, C)), ret(A)], False),
    "block locals": ([], [("block", [("decl", [("?a", num(3))]), ("expr", h(A))]), ("block", [("decl", [("?b", num(4))]), ("expr", h(B))]), ret(num(1))], False),
    "temps": (["?a"], [ret(h(h(A), h(bin_("+", A, num(1)))))], False),
    "void effect": (["?c"], [asg(G, C), asg(C, num(0)), ("expr", h(C))], True),
    "early": (["?a"], [("if", A, ret(num(1)), None), asg(A, num(9)), ("expr", h(A)), ret(bin_("-", A, num(2)))], False),
    "loop return": (["?a", "?n"], [("while", bin_("<", A, N), ("block", [("expr", ("pre", "+", A)), ("if", h(A), ret(A), None)])), ret(num(0))], False),
    "switch return": (["?n"], [("switch", N, [("case", num(1), ret(num(10))), ("case", num(2), ("expr", h(N))), ("break",), ("default", ret(num(30)))]), ret(num(20))], False),
    "recursive": (["?n"], [("if", N, None, None) if False else ("if", bin_("<=", N, num(0)), ret(num(0)), None), ret(bin_("+", N, call("?F", bin_("-", N, num(1)))))], False),
    "recursive twice": (["?n"], [("if", bin_("<", N, num(2)), ret(N), None), ("decl", [("?a", call("?F", bin_("-", N, num(1))))]), asg(A, bin_("+", A, call("?F", bin_("-", N, num(2))))), ret(A)], False),
    "recursive args": (["?a", "?b"], [("if", bin_("==", A, num(0)), ret(B), None), ret(call("?F", bin_("-", A, num(1)), bin_("*", B, A)))], False),
    "void return": (["?a"], [("if", A, ret(), None), asg(K, num(1))], True),
    "many": (["?a", "?b", "?c", "?n", "?s", "?t", "?u", "?w", "?i", "?d", "?e"],
             [asg(A, bin_("+", ("id", "?e"), ("id", "?d"))), ret(bin_("-", A, bin_("*", ("id", "?i"), ("id", "?w"))))], False),
    "stores": (["?a", "?b"], [asg(("deref", A), B), asg(("idx", A, B), h(("deref", A))), ret(("idx", A, B))], False),
}

# what the caller does around the call; E is the call expression
CALLERS = {
    "statement": lambda E: [("expr", E), ret(bin_("+", A, B))],
    "assign local": lambda E: [asg(C, E), ret(bin_("+", bin_("*", A, C), B))],
    "assign own param": lambda E: [asg(A, E), ret(bin_("-", A, B))],
    "assign global": lambda E: [asg(G, E), ret(bin_("-", A, B))],
    "assign cell": lambda E: [asg(("deref", B), E), ret(A)],
    "assign element": lambda E: [asg(("idx", B, A), E), ret(bin_("+", A, B))],
    "add assign": lambda E: [("expr", ("asg", "+", A, E)), ret(bin_("+", A, B))],
    "return": lambda E: [ret(E)],
    "return sum": lambda E: [ret(bin_("+", bin_("*", A, num(2)), E))],
    "two calls": lambda E: [("decl", [("?s", E), ("?t", E)]), ret(bin_("+", bin_("-", ("id", "?s"), ("id", "?t")), A))],
    "sum of calls": lambda E: [asg(C, bin_("-", E, E)), ret(bin_("+", C, A))],
    "arg": lambda E: [("expr", h(A, E, B)), ret(A)],
    "condition": lambda E: [("if", E, ("expr", h(A)), ("expr", h(B))), ret(A)],
    "bool": lambda E: [("if", ("and", A, E), ("expr", h(num(1), A)), None), ret(B)],
    "while": lambda E: [("while", E, ("block", [("expr", h(A)), ("expr", ("pre", "+", B))])), ret(B)],
    "loop body": lambda E: [("for", asg(N, num(0)), bin_("<", N, num(2)), ("post", "+", N), ("block", [asg(C, E), ("expr", h(N, C))])), ret(bin_("+", N, A))],
    "switch": lambda E: [("switch", E, [("case", num(1), ("expr", h(A))), ("break",), ("default", ("expr", h(B)))]), ret(A)],
    "block local": lambda E: [("block", [("decl", [("?s", bin_("+", A, num(1)))]), ("expr", E), ("expr", h(("id", "?s")))]), ret(A)],
    "after return": lambda E: [("if", A, ret(E), None), asg(A, E), ret(bin_("+", A, B))],
    "locals after": lambda E: [("decl", [("?t", E)]), ("decl", [("?s", bin_("*", A, ("id", "?t")))]), ("expr", E), ret(bin_("-", ("id", "?s"), ("id", "?t")))],
}
VOID_CALLERS = ("statement", "block local", "while2")
LOCALS = ["?c", "?n"]

# argument lists by arity
ARGS = {
    "own": lambda k: [A, B, num(3), A, B, A, num(4), B, A, B, num(5)][:k],
    "swapped": lambda k: [B, A, bin_("+", A, B), num(1), A, B, A, B, num(2), A, B][:k],
    "calls": lambda k: [h(A), h(B), num(2), A, h(num(1)), B, A, B, A, B, A][:k],
}


def rename(x, frm, to):
    if isinstance(x, tuple):
        if x[:2] == ("call", frm):
            return ("call", to, rename(x[2], frm, to))
        return tuple(rename(y, frm, to) for y in x)
    if isinstance(x, list):
        return [rename(y, frm, to) for y in x]
    return x


def init(body, names):
    """The locals the body uses, declared (the back end initialises them itself)."""
    use = [n for n in names if has_id(body, n)]
    return [("decl", [(n, num(0)) for n in use])] + body if use else body


def has_id(x, n):
    if isinstance(x, tuple) and x[:2] == ("id", n):
        return True
    return isinstance(x, (tuple, list)) and any(has_id(y, n) for y in x)


def jobs_pairs(quick):
    for cn, (ps, body, void) in CALLEES.items():
        for kn, k in CALLERS.items():
            if void and kn not in VOID_CALLERS:
                continue
            for an, args in ARGS.items():
                if quick and an != "own" and kn not in ("return sum", "two calls", "loop body", "add assign"):
                    continue
                if an != "own" and not ps:
                    continue
                E = call("?F", *args(len(ps)))
                main = init(k(E), LOCALS)
                yield "%s: %s(%s)" % (kn, cn, an), [("?F", ps, rename(body, "?F", "?F"), void)], ["?a", "?b"], main
    # three functions deep, each using the same names
    for c1 in ("clobber", "locals", "temps", "recursive", "early", "loop return", "block locals"):
        for c2 in ("clobber", "locals", "temps", "recursive twice", "early", "stores"):
            p1, b1, v1 = CALLEES[c1]
            p2, b2, v2 = CALLEES[c2]
            b2 = rename(b2, "?F", "?H")
            inner = call("?H", *ARGS["own"](len(p2)))
            mid = (["?a", "?b"], init([("decl", [("?s", call("?F", *ARGS["swapped"](len(p1))))]), asg(B, inner), ret(bin_("+", bin_("*", A, B), ("id", "?s")))], LOCALS), False)
            main = [("decl", [("?s", call("?M", B, num(2)))]), ("expr", h(A, B, ("id", "?s"))), ret(bin_("-", A, call("?F", *ARGS["own"](len(p1)))))]
            yield "deep: %s %s" % (c1, c2), [("?F", p1, b1, v1), ("?H", p2, b2, v2), ("?M",) + mid], ["?a", "?b"], main
    # mutual recursion, defined before and after use
    for k, (x, y) in enumerate([(A, num(1)), (bin_("-", A, num(1)), bin_("+", B, num(1))), (num(1), h(A))]):
        even = (["?a", "?b"], [("if", bin_("<", A, num(1)), ret(B), None), ("decl", [("?n", call("?H", bin_("-", A, num(1)), y))]), ret(bin_("+", N, A))], False)
        odd = (["?b", "?a"], [("if", bin_("<", B, num(1)), ret(num(0)), None), asg(A, call("?F", bin_("-", B, num(1)), A)), ret(bin_("-", A, B))], False)
        for o in (0, 1):
            fs = [("?F",) + even, ("?H",) + odd]
            yield "mutual %d.%d" % (k, o), fs[::-1] if o else fs, ["?a", "?b"], [ret(bin_("+", call("?F", A, B), A))]


class Gen:
    """Random programs of up to four functions sharing their variables' names."""

    def __init__(self, r):
        self.r = r
        self.funs = []

    def expr(self, vs, d, calls=True):
        """Either calls or reads of globals and cells: C leaves their order open."""
        return self.with_calls(vs, d) if calls and self.r.random() < 0.5 else self.reading(vs, d)

    def reading(self, vs, d):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.3:
            return r.choice([num(r.randint(-3, 9)), G] + ([("id", v) for v in vs] * 2))
        if k < 0.8:
            return bin_(r.choice(["+", "-", "*", "<", "=="]), self.reading(vs, d - 1), self.reading(vs, d - 1))
        return ("deref", self.reading(vs, d - 1))

    def with_calls(self, vs, d):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.2:
            return r.choice([num(r.randint(-3, 9))] + ([("id", v) for v in vs] * 3))
        if k < 0.65:
            fs = [f for f in self.funs if not f[3]]
            if fs and r.random() < 0.8:
                f = r.choice(fs)
                return call(f[0], *[self.with_calls(vs, d - 1) for _ in f[1]])
            return h(self.with_calls(vs, d - 1))
        return bin_(r.choice(["+", "-", "*", "<", "=="]), self.with_calls(vs, d - 1), self.with_calls(vs, d - 1))

    def stmts(self, vs, d, void, n, depth=2):
        r = self.r
        out = []
        fresh = [v for v in VARS if v not in vs]
        if fresh and r.random() < 0.6:
            ds = r.sample(fresh, min(len(fresh), r.randint(1, 2)))
            out.append(("decl", [(v, self.expr(vs, 2)) for v in ds]))
            vs = vs + ds
        for _ in range(n):
            k = r.random()
            if k < 0.35 and vs:
                out.append(asg(("id", r.choice(vs)), self.expr(vs, d)))
            elif k < 0.45:
                out.append(asg(r.choice([G, K, ("deref", ("id", vs[0]))]) if vs else G, self.expr(vs, d)))
            elif k < 0.6:
                fs = [f for f in self.funs]
                if fs:
                    f = r.choice(fs)
                    out.append(("expr", call(f[0], *[self.with_calls(vs, d - 1) for _ in f[1]])))
                else:
                    out.append(("expr", h(self.expr(vs, d))))
            elif k < 0.7:
                out.append(("expr", h(*[("id", v) for v in vs[:3]])))
            elif k < 0.85 and depth:
                out.append(("if", self.expr(vs, 1, r.random() < 0.3), ("block", self.stmts(vs, d, void, 1, depth - 1)), r.choice([None, ("block", self.stmts(vs, d, void, 1, depth - 1))])))
            elif depth and vs:
                w = r.choice(vs)
                body = self.stmts([v for v in vs if v != w], d, void, 1, depth - 1)
                if not has_id(body, w):
                    out.append(("while", bin_("<", ("id", w), G), ("block", body + [("expr", ("pre", "+", ("id", w)))])))
            if r.random() < 0.12:
                out.append(ret(None if void else self.expr(vs, d)))
                break
        return out

    def program(self):
        r = self.r
        for i in range(r.randint(1, 3)):
            ps = r.sample(VARS, r.randint(0, 3))
            void = r.random() < 0.25
            body = self.stmts(list(ps), 2, void, r.randint(1, 3))
            if not void:
                body.append(ret(self.expr(ps, 2)))
            self.funs.append(("?" + "FHM"[i], ps, body, void))
        main = self.stmts(["?a", "?b"], 2, False, r.randint(1, 3)) + [ret(self.expr(["?a", "?b"], 2))]
        return self.funs, main


def shadows(s, seen=()):
    """A local declared again in a nested block: outside the back end's subset."""
    vs = set(seen)
    for x in s:
        if x[0] == "decl":
            for n, _ in x[1]:
                if n in vs:
                    return True
                vs.add(n)
        elif x[0] in ("if", "while"):
            for y in x[1:]:
                if isinstance(y, tuple) and y[0] == "block" and shadows(y[1], vs):
                    return True
    return False


def jobs_random(seed, count):
    r = random.Random(seed)
    k = 0
    while k < count:
        fs, main = Gen(r).program()
        if len(repr((fs, main))) > 2500 or call_in_lazy([main] + [f[2] for f in fs]):
            continue
        if shadows(main, ("?a", "?b")) or any(shadows(f[2], f[1]) for f in fs):
            continue
        k += 1
        yield "random: " + " ".join("%s(%s){%s}" % (f[0], ",".join(f[1]), " ".join(show(s) for s in f[2])) for f in fs) + " main " + " ".join(show(s) for s in main), fs, ["?a", "?b"], main


class Calls(Suite):
    def go(self, rep, rule, key, funs, params, body, budget):
        allb = [body] + [f[2] for f in funs]
        must = not call_in_lazy(allb)
        case = Case("%s [%s]" % (key, self.cfg), params, body, ["?g", "?k"], must=must, funs=funs)
        check(rep, rule, case, self.cfg, self.base, budget=budget, prelude=self.prelude, sh_intr={"defstr": self.defstr}, max_paths=80)


def run(rep):
    rep.rule("call", "every shape of callee in every position of a caller, with own, swapped and computed arguments; three functions deep; mutual recursion")
    rep.rule("random", "pseudo-random programs of several functions that share the names of their variables (seeded)")
    rep.trusted += ["shell semantics lib/shsem.py (positional parameters, dynamic scope of variables)", "reference C semantics lib/shref.py"]
    rep.assumptions += ["recursion and loops are followed for a bounded number of decisions per path"]
    quick = rep.tier != "thorough"
    tasks = []
    for cfg in (["sh", "sh-fast"] if quick else ["sh", "sh-fast", "sh-release", "sh-safe"]):
        s = Calls(cfg)
        rep.use(s.base.u, ["comp_glo_fun_decl", "comp_fun_call_code", "comp_fun_call", "save_local_vars", "restore_local_vars", "comp_body", "handle_side_effects_go", "fresh_ident",
                           "add_var_to_local_env", "add_fun_params_to_local_env", "runtime_local_vars"])
        jobs = [("call",) + j for j in jobs_pairs(quick)]
        jobs += [("random",) + j for j in jobs_random(rep.seed, 200 if quick else 3000)]
        n = 16 if quick else 64
        for i in range(n):
            tasks.append(("%s/%d" % (cfg, i), lambda r, s=s, js=jobs[i::n]: [s.go(r, j[0], j[1], j[2], j[3], j[4], 6 if quick else 8) for j in js]))
    rep.parallel(tasks)
    rep.expect("call", 300)
    rep.expect("random", 150)
