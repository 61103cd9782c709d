"""Shell back end: an expression, wherever it stands, computes the C expression."""
import random
from frontend import Broken, unit
from shgen import ShGen
from shsem import parse
from shref import Builder, show
from shcheck import Case, check

CONFIGS = ["sh"]
THOROUGH = ["sh", "sh-release", "sh-safe"]

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", ","]
UN = ["-", "+", "~", "!"]
ASG = ["", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
LOCALS = ["?a", "?b", "?c", "?d", "?e", "?i"]
PTRS = ["?p", "?q"]


class Pool:
    """Distinct variables, so that the order in which C evaluates operands does not matter."""

    def __init__(self):
        self.n = {}

    def take(self, kind, names):
        k = self.n.get(kind, 0)
        self.n[kind] = k + 1
        return names[k % len(names)]

    def val(self):
        return ("id", self.take("v", LOCALS[:4]))

    def lval(self):
        return ("id", self.take("l", ["?s", "?t", "?u", "?w"]))

    def ptr(self):
        return ("id", self.take("p", PTRS))


# constructors of expressions: name -> (operand kinds, build). Operand kinds: "e" any expression, "l" lvalue, "p" pointer expression
CONS = {}
for o in BIN:
    CONS["bin " + o] = ("ee", lambda a, b, o=o: ("bin", o, a, b))
CONS["and"] = ("ee", lambda a, b: ("and", a, b))
CONS["or"] = ("ee", lambda a, b: ("or", a, b))
for o in UN:
    CONS["un " + o] = ("e", lambda a, o=o: ("un", o, a))
for o in ASG:
    CONS["asg %s=" % o] = ("le", lambda a, b, o=o: ("asg", o, a, b))
for o in "+-":
    CONS["pre " + o * 2] = ("l", lambda a, o=o: ("pre", o, a))
    CONS["post " + o * 2] = ("l", lambda a, o=o: ("post", o, a))
CONS["cond"] = ("eee", lambda a, b, c: ("cond", a, b, c))
CONS["idx"] = ("ee", lambda a, b: ("idx", a, b))
CONS["deref"] = ("e", lambda a: ("deref", a))
CONS["arrow"] = ("e", lambda a: ("arrow", a, "?m1", 1))
CONS["cast"] = ("e", lambda a: ("cast", a))
CONS["paren"] = ("e", lambda a: ("paren", a))
CONS["addr"] = ("l", lambda a: ("addr", a))
CONS["call"] = ("e", lambda a: ("call", "?h", [a]))

LVALUES = {
    "idx": ("ee", lambda a, b: ("idx", a, b)),
    "deref": ("e", lambda a: ("deref", a)),
    "arrow": ("e", lambda a: ("arrow", a, "?m1", 1)),
    "paren idx": ("ee", lambda a, b: ("paren", ("idx", a, b))),
    "cast deref": ("e", lambda a: ("deref", ("cast", a))),
}
LEAVES = {
    "num": lambda p: ("num", 5), "zero": lambda p: ("num", 0), "neg": lambda p: ("num", -7), "hex": lambda p: ("hex", 0x1F),
    "oct": lambda p: ("oct", 0o17), "neg hex": lambda p: ("un", "-", ("hex", 0x2A)), "neg oct": lambda p: ("un", "-", ("oct", 0o12)),
    "chr": lambda p: ("chr", 65), "enum": lambda p: ("const", "?E", 3), "local": lambda p: p.val(), "global": lambda p: ("glo", "?g"),
    "str": lambda p: ("str", "ab"), "sizeof struct": lambda p: ("sizeof_struct", "?S", 3), "sizeof int": lambda p: ("sizeof_int",),
    "big": lambda p: ("num", 2147483647), "hex0": lambda p: ("hex", 0), "chr0": lambda p: ("chr", 0),
}


def atom(kind, p):
    return p.lval() if kind == "l" else p.val()


def build(name, p, table=None):
    kinds, f = (table or CONS)[name]
    if name == "addr":
        return f(("idx", p.val(), p.val()))
    return f(*[atom(k, p) for k in kinds])


def nested(parent, pos, child, ctable=None, ptable=None):
    """parent with `child` at operand `pos` and leaves elsewhere; None when C has no such expression."""
    p = Pool()
    kinds, f = (ptable or CONS)[parent]
    ops = []
    for i, k in enumerate(kinds):
        if i == pos:
            c = child(p) if callable(child) else build(child, p, ctable)
            if k == "l" and c[0] not in ("id", "glo", "idx", "deref", "arrow", "paren"):
                return None
            if k == "l" and c[0] == "paren" and c[1][0] not in ("id", "glo", "idx", "deref", "arrow"):
                return None
            ops.append(c)
        elif parent == "addr":
            ops.append(("idx", p.val(), p.val()))
        else:
            ops.append(atom(k, p))
    if parent == "addr" and (ops[0][0] in ("id", "glo") or (ops[0][0] == "paren" and ops[0][1][0] in ("id", "glo"))):
        return None      # address of a variable: outside the back end's subset
    return f(*ops)


CONTEXTS = {
    "return": lambda e: [("return", e)],
    "local": lambda e: [("expr", ("asg", "", ("id", "?r"), e)), ("return", ("id", "?r"))],
    "if": lambda e: [("if", e, ("expr", h(1)), ("expr", h(2)))],
    "global": lambda e: [("expr", ("asg", "", ("glo", "?k"), e))],
    "store": lambda e: [("expr", ("asg", "", ("deref", ("id", "?z")), e))],
    "init": lambda e: [("decl", [("?n", e)]), ("return", ("id", "?n"))],
    "arg": lambda e: [("expr", ("call", "?h", [e]))],
    "arg2": lambda e: [("expr", ("call", "?h", [("num", 1), e, ("num", 2)]))],
    "while": lambda e: [("while", e, ("expr", h(1)))],
    "do": lambda e: [("do", ("expr", h(1)), e)],
    "for": lambda e: [("for", None, e, ("asg", "", ("id", "?z"), ("num", 1)), ("expr", h(1)))],
    "elif": lambda e: [("if", ("id", "?z"), ("expr", h(1)), ("if", e, ("expr", h(2)), ("expr", h(3))))],
    "switch": lambda e: [("switch", e, [("case", ("num", 1), ("expr", h(1))), ("break",)])],
    "statement": lambda e: [("expr", e)],
    "for post": lambda e: [("for", None, h(1), e, ("expr", h(2)))],
}


def h(n):
    return ("call", "?h", [("num", n)])


PARAMS = LOCALS + PTRS + ["?s", "?t", "?u", "?w", "?z", "?r"]


def used(x, acc):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "id" and isinstance(x[1], str):
        acc.add(x[1])
    elif isinstance(x, (tuple, list)):
        for y in x:
            used(y, acc)
    return acc


def has(x, kinds):
    if isinstance(x, tuple) and x and x[0] in kinds:
        return True
    return isinstance(x, (tuple, list)) and any(has(y, kinds) for y in x)


def call_in_lazy(x):
    """A call below &&, || or ?: (accepted only in some positions)."""
    if not isinstance(x, (tuple, list)):
        return False
    if isinstance(x, tuple) and x and x[0] in ("and", "or", "cond") and has(x[1:], ("call",)):
        return True
    return any(call_in_lazy(y) for y in x)


def call_after_comma(x):
    """A call on the right of a comma operator inside an expression with side effects (rejected by design)."""
    if not isinstance(x, (tuple, list)):
        return False
    if isinstance(x, tuple) and x[:2] == ("bin", ",") and has(x[3], ("call",)):
        return True
    return any(call_after_comma(y) for y in x)


def known_class(x):
    """Schemas that fail because of the recorded defect: the index of a modified element is x & y."""
    if not isinstance(x, (tuple, list)):
        return None
    if isinstance(x, tuple) and x and x[0] in ("asg", "pre", "post"):
        l = x[2]
        while l[0] in ("paren", "cast"):
            l = l[1]
        if l[0] == "idx" and l[2][:2] == ("bin", "&"):
            return "index x & y of a modified element"
    for y in x:
        r = known_class(y)
        if r:
            return r
    return None


def mutates(x):
    return has(x, ("asg", "pre", "post"))


class Suite:
    def __init__(self, cfg):
        self.cfg = cfg
        g = ShGen(cfg)
        b = Builder(g)
        g.clear()
        # enum and struct declarations give the constants their values
        g.call("codegen_glo_decl", g.node("ENUM_KW", 0, 0, g.list([g.node("=", g.ident("?E"), g.atom("INTEGER", -3))])))
        g.call("codegen_glo_decl", g.node("STRUCT_KW", 0, g.ident("?S"), g.list(
            [g.node("DECL", g.ident(m), b.inty(), 0) for m in ("?m0", "?m1", "?m2")])))
        text = g.text()
        g.clear()
        for c in (0, 65):
            g.call("print_text", g.call("character_ident", c))
            text += "\nreadonly %s=%d\n" % (g.text(), c)
            g.clear()
        self.prelude = parse(text)
        for n in ["?f", "?h", "?g", "?k", "?n", "?m1", "?E", "?S"] + PARAMS:
            g.probe(n)
        g.clear()
        self.base = g
        self.strs = {}

    def defstr(self, x, args, redirs):
        """The string literal becomes the value of its variable."""
        k = x.dest(args[0])
        t = x.value(args[1])
        t = str(t) if isinstance(t, int) else t[1]
        x.w.vars[k] = ("v", "str:" + t)
        return True

    def check(self, rep, rule, key, body, must=True, budget=6):
        us = [p for p in PARAMS if p in used(body, set())]
        key = known_class(body) or "%s [%s]" % (key, self.cfg)
        must = must and not call_in_lazy(body) and not (call_after_comma(body) and mutates(body))
        case = Case(key, us, body, ["?g", "?k"], must=must)
        check(rep, rule, case, self.cfg, self.base, budget=budget, prelude=self.prelude, sh_intr={"defstr": self.defstr})


def wrap(e):
    return show(e) if not isinstance(e, list) else "; ".join(show(s) for s in e)


def jobs_contexts():
    """Every constructor and every kind of leaf in every context."""
    for cn, ctx in CONTEXTS.items():
        for name in CONS:
            p = Pool()
            yield "context %s: %s" % (cn, name), ctx(build(name, p))
        for name, f in LEAVES.items():
            yield "context %s: leaf %s" % (cn, name), ctx(f(Pool()))
        for o in ("&&", "||"):
            for name in ("bin ==", "bin <", "un !", "and", "or", "call", "asg =", "cond", "bin ,", "bin +"):
                for pos in (0, 1):
                    yield "context %s: %s%d %s" % (cn, o, pos, name), ctx(nested("and" if o == "&&" else "or", pos, name))


def jobs_pairs(ctxs):
    for parent in CONS:
        for pos in range(len(CONS[parent][0])):
            for child in CONS:
                e = nested(parent, pos, child)
                if e is None:
                    continue
                for cn in ctxs:
                    if cn not in ("statement", "for post") or mutates(e):
                        yield "%s: %s.%d %s" % (cn, parent, pos, child), CONTEXTS[cn](e)
            for child, f in LEAVES.items():
                e = nested(parent, pos, f)
                if e is None:
                    continue
                for cn in ctxs:
                    yield "%s: %s.%d leaf %s" % (cn, parent, pos, child), CONTEXTS[cn](e)


FEW = ("bin +", "bin &", "bin <", "bin ,", "and", "un -", "asg =", "post ++", "cond", "idx", "deref", "cast", "call", "leaf local", "leaf hex", "leaf num")


def jobs_lvalues():
    """Every assignment, increment and address operator on every form of lvalue with every operand expression."""
    for name, (kinds, f) in LVALUES.items():
        for pos in range(len(kinds)):
            for child in list(CONS) + ["leaf " + l for l in LEAVES]:
                def lv(p):
                    ops = [p.val() for _ in kinds]
                    ops[pos] = LEAVES[child[5:]](p) if child.startswith("leaf ") else build(child, p)
                    return f(*ops)
                for parent in ("asg =", "asg +=", "pre ++", "pre --", "post ++", "post --", "addr"):
                    if parent in ("asg +=", "pre --", "post --") and child not in FEW:
                        continue
                    e = nested(parent, 0, lv)
                    if e is not None:
                        yield "lvalue %s %s.%d %s" % (parent, name, pos, child), [("return", e)]
                e = nested("asg =", 0, lv)
                yield "lvalue statement %s.%d %s" % (name, pos, child), [("expr", e)]
                if not has(lv(Pool()), ("call",)):
                    yield "value of call to lvalue %s.%d %s" % (name, pos, child), [("if", ("asg", "", lv(Pool()), ("call", "?h", [("num", 4)])), ("expr", h(1)), None)]
                    yield "lvalue of call %s.%d %s" % (name, pos, child), [("expr", ("asg", "", lv(Pool()), ("call", "?h", [("num", 4)])))]


def call_exprs():
    """Expressions whose value depends on several live call results."""
    c = lambda *a: ("call", "?h", list(a))
    def V(p):
        return p.val()
    return {
        "c": lambda p: c(V(p)),
        "c-c": lambda p: ("bin", "-", c(V(p)), c(V(p))),
        "c(c)-c": lambda p: ("bin", "-", c(c(V(p))), c(V(p))),
        "c-c(c)": lambda p: ("bin", "-", c(V(p)), c(c(V(p)))),
        "c(c,c)": lambda p: c(c(V(p)), c(V(p))),
        "c(v,c(v))": lambda p: c(V(p), c(V(p))),
        "c(c(v),v)==c": lambda p: ("bin", "==", c(c(V(p)), V(p)), c(V(p))),
        "!c": lambda p: ("un", "!", c(V(p))),
        "c(c-c)+c": lambda p: ("bin", "+", c(("bin", "-", c(V(p)), c(V(p)))), c(V(p))),
        "c(c+v)": lambda p: c(("bin", "+", c(V(p)), V(p))),
        "c*c-c*c": lambda p: ("bin", "-", ("bin", "*", c(V(p)), c(V(p))), ("bin", "*", c(V(p)), c(V(p)))),
        "v-c<c": lambda p: ("bin", "<", ("bin", "-", V(p), c(V(p))), c(V(p))),
        "c()": lambda p: c(),
        "c(v,v,v,c)": lambda p: c(V(p), ("num", 3), V(p), c(V(p))),
        "v": lambda p: V(p),
        "v<v": lambda p: ("bin", "<", V(p), V(p)),
    }


def jobs_calls():
    """Several call results alive at once, also inside the operands of && and ||."""
    C = call_exprs()
    tests = ["if", "while", "elif", "do", "for"]
    for cn in list(CONTEXTS):
        if cn == "for post":
            continue
        for n, f in C.items():
            yield "calls %s: %s" % (cn, n), CONTEXTS[cn](f(Pool()))
    logic = {
        "%s && %s": lambda x, y: ("and", x, y), "%s || %s": lambda x, y: ("or", x, y),
        "(%s && %s) || v": lambda x, y: ("or", ("and", x, y), ("id", "?e")), "v && (%s || %s)": lambda x, y: ("and", ("id", "?e"), ("paren", ("or", x, y))),
        "(%s || c) && %s": lambda x, y: ("and", ("paren", ("or", x, ("call", "?h", [("num", 9)]))), y),
        "%s || v && %s": lambda x, y: ("or", x, ("and", ("id", "?e"), y)),
    }
    for i, cn in enumerate(tests):
        for j, (ln, l) in enumerate(logic.items()):
            for k, (n, f) in enumerate(C.items()):
                for m in ("c", "v<v", "c(c)-c"):
                    if cn not in ("if", "elif") and (j + k) % 3:
                        continue
                    p = Pool()
                    a, b = f(p), C[m](p)
                    for x, y, t in ((a, b, (n, m)), (b, a, (m, n))):
                        yield "calls %s: %s" % (cn, ln % t), CONTEXTS[cn](l(x, y))


def rand_expr(r, p, depth, effects=True):
    if depth == 0:
        return LEAVES[r.choice(["num", "neg", "hex", "oct", "chr", "enum", "local", "local", "local", "local"])](p)
    names = [n for n in CONS if n not in ("addr",) and (effects or CONS[n][0][0] != "l")]
    name = r.choice(names)
    kinds, f = CONS[name]
    ops = []
    for k in kinds:
        if k == "l":
            ops.append(r.choice([p.lval(), ("idx", p.val(), rand_expr(r, p, max(depth - 2, 0), False)), ("deref", rand_expr(r, p, max(depth - 2, 0), False))]))
        else:
            ops.append(rand_expr(r, p, depth - 1 - (r.random() < 0.3 and depth > 1), effects))
    return f(*ops)


def conflict(e):
    """Does the tree modify something that C may also read or modify unsequenced?"""
    n = [0]
    calls = [0]

    def go(x):
        if isinstance(x, tuple) and x and x[0] in ("asg", "pre", "post") and len(x) >= 3 and x[1] in ("", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
            n[0] += 1
        if isinstance(x, tuple) and x and x[0] == "call":
            calls[0] += 1
        if isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(e)
    mem = has(e, ("idx", "deref", "arrow", "glo"))
    return n[0] > 2 or (n[0] and mem and has_mem_write(e)) or (calls[0] and (mem or n[0]))


def has_mem_write(e):
    if isinstance(e, tuple) and e and e[0] in ("asg", "pre", "post") and len(e) >= 3 and isinstance(e[2], tuple) and e[2][0] != "id":
        return True
    return isinstance(e, (tuple, list)) and any(has_mem_write(y) for y in e)


def jobs_random(seed, n, depth):
    r = random.Random(seed)
    k = 0
    while k < n:
        e = rand_expr(r, Pool(), r.randint(2, depth))
        if conflict(e):
            continue
        k += 1
        cn = r.choice(list(CONTEXTS))
        yield "random %s: %s" % (cn, show(e)), CONTEXTS[cn](e)


def unseq(e):
    """A call beside an access to memory or a global: C leaves their order open (locals are out of reach of the call)."""
    return has(e, ("call",)) and has(e, ("idx", "deref", "arrow", "glo"))


def run(rep):
    rep.rule("context", "every expression constructor and literal in every statement position")
    rep.rule("pair", "every operator with every operator or literal as each of its operands")
    rep.rule("lvalue", "every way of modifying or taking the address of every form of lvalue")
    rep.rule("calls", "several call results alive at once, in every context and below && and ||")
    rep.rule("random", "pseudo-random expression trees (seeded)")
    rep.trusted += ["shell semantics lib/shsem.py (POSIX sh grammar and arithmetic)", "reference C semantics lib/shref.py"]
    rep.assumptions += ["integer overflow, division by zero and over-wide shifts are outside the model",
                        "variables of the schema are distinct objects; order of evaluation that C leaves open is not constrained"]
    quick = rep.tier != "thorough"
    cfgs = CONFIGS if quick else THOROUGH
    tasks = []
    for cfg in cfgs:
        s = Suite(cfg)
        rep.use(s.base.u, ["comp_rvalue", "comp_rvalue_go", "comp_lvalue", "comp_lvalue_address", "handle_side_effects_go", "comp_assignment", "comp_fun_call_code", "wrap_if_needed"])
        jobs = [("context", k, b, not odd(b)) for k, b in jobs_contexts()]
        jobs += [("pair", k, b, not odd(b)) for k, b in jobs_pairs(["return", "if", "statement"] if quick else ["return", "local", "if", "arg", "store", "elif", "do", "statement", "for post", "arg2", "switch", "init"])]
        jobs += [("lvalue", k, b, not odd(b)) for k, b in jobs_lvalues()]
        jobs += [("calls", k, b, True) for k, b in jobs_calls()]
        jobs += [("random", k, b, not odd(b)) for k, b in jobs_random(rep.seed, 400 if quick else 6000, 4)]
        jobs = [j for j in jobs if not ordered(j[2])]
        N = 24 if quick else 64
        for i in range(N):
            tasks.append(("%s/%d" % (cfg, i), lambda r, s=s, js=jobs[i::N]: [s.check(r, *j) for j in js]))
    rep.parallel(tasks)
    for r, n in (("context", 500), ("pair", 2000), ("lvalue", 500)):
        rep.expect(r, n)


def odd(b):
    """Constructs the back end documents as unsupported."""
    return False


def ordered(b):
    """Does the C meaning depend on an evaluation order C leaves open?"""
    return unordered(b) and (has(b, ("call",)))


def unordered(b):
    # a call together with memory, globals or assignments inside one full expression
    def go(e):
        if isinstance(e, tuple) and e and e[0] in ("bin", "idx", "asg", "un", "pre", "post", "deref", "arrow", "call", "and", "or", "cond", "cast", "paren", "addr"):
            if has(e, ("call",)):
                inner = e
                if e[0] == "asg" and not e[1]:
                    l = e[2]      # the store comes after the evaluation of the value
                    while l[0] in ("paren", "cast"):
                        l = l[1]
                    if not has(l[1:], ("idx", "deref", "arrow", "glo", "call")):
                        return go(e[3])
                return unseq(inner)
            return False
        if isinstance(e, (tuple, list)):
            return any(go(y) for y in e)
        return False
    return go(b)
