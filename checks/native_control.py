"""Native control flow: every statement transfers control as in C, whatever its sub-statements are."""
import itertools, random
from absint import t_add, t_scale, is_int
from native import SP0, BadCode, SP, AX
from cgen import *
from native_ops import Prover

STMT_OPS = ("IF_KW", "WHILE_KW", "FOR_KW", "DO_KW", "SWITCH_KW", "CASE_KW", "DEFAULT_KW", "BREAK_KW", "CONTINUE_KW",
            "RETURN_KW", "{", ":", "GOTO_KW", "DECLS", "STRING", "INITIALIZER_LIST")

# A program is a tree of tuples:
#  ("st", n) opaque statement        ("ex", n) opaque expression statement   ("if", c, s, s|None)
#  ("while", c, s)  ("do", s, c)  ("for", i|None, c|None, p|None, s)         ("switch", e, s)
#  ("case", k, s)  ("default", s)  ("break",)  ("continue",)  ("return", e|None)
#  ("goto", L)  ("label", L, s)  ("block", s...)  ("decl", words, init|None)  ("static", init|None)


def text(s):
    if s is None:
        return ""
    k = s[0]
    t = text
    if k in ("st", "ex"):
        return s[1] + ";"
    if k == "if":
        return "if(%s)%s" % (s[1], t(s[2])) + (" else " + t(s[3]) if s[3] is not None else "")
    if k == "while":
        return "while(%s)%s" % (s[1], t(s[2]))
    if k == "do":
        return "do %s while(%s);" % (t(s[1]), s[2])
    if k == "for":
        return "for(%s;%s;%s)%s" % (s[1] or "", s[2] or "", s[3] or "", t(s[4]))
    if k == "switch":
        return "switch(%s)%s" % (s[1], t(s[2]))
    if k == "case":
        return "case %s:%s" % (s[1], t(s[2]))
    if k == "default":
        return "default:" + t(s[1])
    if k in ("break", "continue"):
        return k + ";"
    if k == "return":
        return "return %s;" % (s[1] or "")
    if k == "goto":
        return "goto %s;" % s[1]
    if k == "label":
        return "%s:%s" % (s[1], t(s[2]))
    if k == "block":
        return "{" + "".join(t(x) for x in s[1:]) + "}"
    if k == "decl":
        return "int x[%d]%s;" % (s[1], "=" + s[2] if s[2] else "")
    if k == "static":
        return "static int y%s;" % ("=" + s[1] if s[1] else "")
    raise Broken(k)


class Tree:
    """Builds the syntax tree of a program in the abstract heap."""

    def __init__(self, g):
        self.g = g
        self.leaf = {}
        self.decls = 0

    def e(self, n):
        if n is None:
            return 0
        if n not in self.leaf:
            self.leaf[n] = self.g.leaf(n, self.g.basic("INT_KW"), 4, exclude=STMT_OPS)
            self.g.leaves[self.leaf[n]]["expr"] = True
        return self.leaf[n]

    def s(self, n):
        if n not in self.leaf:
            self.leaf[n] = self.g.leaf(n, None, None, exclude=("DECLS",))
        return self.leaf[n]

    def const(self, k):
        if k < 0:
            return self.g.node("-", self.g.atom("INTEGER", k))
        return self.g.atom("INTEGER", -k)

    def build(self, s):
        g = self.g
        if s is None:
            return 0
        k = s[0]
        if k == "st":
            return self.s(s[1])
        if k == "ex":
            return self.e(s[1])
        if k == "if":
            return g.node("IF_KW", self.e(s[1]), self.build(s[2]), self.build(s[3]))
        if k == "while":
            return g.node("WHILE_KW", self.e(s[1]), self.build(s[2]))
        if k == "do":
            return g.node("DO_KW", self.build(s[1]), self.e(s[2]))
        if k == "for":
            return g.node("FOR_KW", self.e(s[1]), self.e(s[2]), self.e(s[3]), self.build(s[4]))
        if k == "switch":
            return g.node("SWITCH_KW", self.e(s[1]), self.build(s[2]))
        if k == "case":
            return g.node("CASE_KW", self.const(s[1]), self.build(s[2]))
        if k == "default":
            return g.node("DEFAULT_KW", self.build(s[1]))
        if k == "break":
            return g.atom("BREAK_KW", 0)
        if k == "continue":
            return g.atom("CONTINUE_KW", 0)
        if k == "return":
            return g.node("RETURN_KW", self.e(s[1]))
        if k == "goto":
            return g.node("GOTO_KW", g.ident_node(s[1]))
        if k == "label":
            return g.node(":", g.ident_node(s[1]), self.build(s[2]))
        if k == "block":
            r = 0
            for x in reversed(s[1:]):
                r = g.node("{", self.build(x), r)
            return r
        if k == "decl":
            self.decls += 1
            ty = g.arr(g.basic("INT_KW"), s[1] * g.W // 4) if s[1] > 1 else g.basic("INT_KW")
            d = g.node("DECL", g.ident_node("x%d" % self.decls), ty, self.e(s[2]) if s[2] else 0)
            return g.node("DECLS", g.list(d), 0)
        if k == "static":
            self.decls += 1
            d = g.node("DECL", g.ident_node("x%d" % self.decls), g.basic("INT_KW"), self.e(s[1]) if s[1] else 0)
            return g.node("DECLS", g.list(d), g.op("STATIC_KW"))
        raise Broken(k)


class Meaning:
    """The reference control-flow graph of a program."""

    def __init__(self):
        self.r = Ref()
        self.labels = {}

    def label(self, n):
        if n not in self.labels:
            self.labels[n] = self.r.hole()
        return self.labels[n]

    def test(self, c, t, f):
        return self.r.ev(("rv", c), self.r.test("ne", ("v", "val." + c), 0, t, f))

    def go(self, s, k, brk, cont, sw):
        """Node that executes s and continues with k."""
        r = self.r
        if s is None:
            return k
        op = s[0]
        if op == "st":
            return r.ev(("st", s[1]), k)
        if op == "ex":
            return r.ev(("rv", s[1]), k)
        if op == "if":
            return self.test(s[1], self.go(s[2], k, brk, cont, sw), self.go(s[3], k, brk, cont, sw))
        if op == "while":
            h = r.hole()
            r.fill(h, self.test(s[1], self.go(s[2], h, k, h, sw), k))
            return h
        if op == "do":
            h = r.hole()
            c = self.test(s[2], h, k)
            r.fill(h, self.go(s[1], c, k, c, sw))
            return h
        if op == "for":
            h = r.hole()
            post = r.ev(("rv", s[3]), h) if s[3] else h
            body = self.go(s[4], post, k, post, sw)
            r.fill(h, self.test(s[2], body, k) if s[2] else body)
            return r.ev(("rv", s[1]), h) if s[1] else h
        if op == "switch":
            cases = []
            dflt = [None]
            self.go(s[2], k, k, cont, (cases, dflt))
            n = dflt[0] if dflt[0] is not None else k
            for c, h in reversed(cases):
                n = r.test("e", ("v", "val." + s[1]), c, h, n)
            return r.ev(("rv", s[1]), n)
        if op == "case":
            n = self.go(s[2], k, brk, cont, sw)
            sw[0].append((s[1], n))
            return n
        if op == "default":
            n = self.go(s[1], k, brk, cont, sw)
            sw[1][0] = n
            return n
        if op == "break":
            return brk
        if op == "continue":
            return cont
        if op == "return":
            if s[1]:
                return r.ev(("rv", s[1]), r.end("ret", ("v", "val." + s[1])))
            return r.end("ret", None)
        if op == "goto":
            return self.label(s[1])
        if op == "label":
            n = self.go(s[2], k, brk, cont, sw)
            r.fill(self.label(s[1]), n)
            return n
        if op == "block":
            # cases appear in source order: build forward with holes, then link
            holes = [r.hole() for _ in s[1:]] + [k]
            for i, x in enumerate(s[1:]):
                r.fill(holes[i], self.go(x, holes[i + 1], brk, cont, sw))
            return holes[0]
        if op == "decl":
            return r.ev(("rv", s[2]), k) if s[2] else k
        if op == "static":
            return k
        raise Broken(op)


def final(code, _):
    want = t_add(SP0, t_scale(FS0, code.W))

    def chk(node, kind, a):
        if node[1] == "ret":
            if kind != "ret":
                return "expected a return, the code does %s" % show_node(a)
            if a[2] != want:
                return "the return address is taken from %s, it is at %s" % (fmt(a[2]), fmt(want))
            if node[2] is not None and a[1] != node[2]:
                return "returns %s, expected %s" % (fmt(a[1]), fmt(node[2]))
            return None
        if kind != "end":
            return "expected the end of the statement, the code does %s" % show_node(a)
        if a[1].r[SP] != SP0:
            return "the stack is %s bytes deeper after the statement" % fmt(t_add(SP0, a[1].r[SP], -1))
    return chk


def blk(*x):
    return ("block",) + x


def S(n):
    return ("st", n)


def loops(n, body):
    return [("while", "c" + n, body), ("do", body, "c" + n), ("for", "i" + n, "c" + n, "p" + n, body),
            ("for", None, None, None, body), ("for", None, "c" + n, None, body), ("for", "i" + n, None, "p" + n, body)]


def switches(n, body):
    return [("switch", "e" + n, blk(("case", 1, body), ("case", 2, S("t" + n)), ("default", S("d" + n)))),
            ("switch", "e" + n, blk(("default", body), ("case", 3, ("break",)), ("case", 4, S("t" + n)))),
            ("switch", "e" + n, blk(("case", 0, ("case", 5, body)), S("t" + n)))]


def programs():
    A, Bs, C = S("a"), S("b"), S("c")
    D = ("decl", 1, None)
    D3 = ("decl", 3, None)
    DI = ("decl", 1, "v")
    out = [
        ("if", "x", A, None), ("if", "x", A, Bs), ("if", "x", None, Bs), ("if", "x", ("if", "y", A, None), Bs),
        ("if", "x", ("if", "y", A, Bs), ("if", "z", C, None)), ("ex", "x"), blk(), blk(A, Bs, C), blk(D, A), blk(DI, A, D3, Bs),
        blk(A, blk(D, Bs), C), blk(D, blk(D3, A), Bs), blk(("static", "q"), A), blk(D, ("static", None), A),
        ("return", None), ("return", "x"), blk(D, ("return", "x")), blk(D, blk(D3, ("return", "x"))),
        blk(D, ("if", "x", ("return", "y"), None), A), ("if", "x", ("return", "y"), ("return", "z")),
        ("switch", "e", blk()), ("switch", "e", blk(("case", 7, A))), ("switch", "e", ("case", 7, A)),
        ("switch", "e", blk(("case", 1, A), ("break",), ("case", 2, Bs), ("case", -3, C), ("break",), ("default", S("d")))),
        ("switch", "e", blk(("case", 0, A), ("default", Bs), ("case", 9, C))),
        ("switch", "e", blk(("case", 1, ("case", 2, ("default", A))), ("break",), ("case", 3, Bs))),
        ("switch", "e", blk(("case", 1, blk(D, A, ("break",))), ("case", 2, blk(D3, Bs)))),
        ("switch", "e", blk(D, ("case", 1, A), ("break",), D3, ("case", 2, Bs), ("default", C))),
        ("switch", "e", blk(("case", 1, ("return", "x")), ("default", ("return", None)))),
        ("switch", "e", blk(("case", 1, ("if", "x", ("break",), None)), A, ("case", 2, ("if", "y", ("return", "z"), ("break",))))),
        ("switch", "e", ("while", "x", blk(("case", 1, A), ("case", 2, Bs)))),
        ("switch", "e", ("do", blk(("case", 0, A), ("if", "y", ("continue",), None), ("case", 1, Bs)), "x")),
        ("switch", "e", blk(("case", 1, ("switch", "f", blk(("case", 1, A), ("break",), ("default", Bs)))), ("case", 2, C), ("break",))),
        ("switch", "e", blk(("case", 1, blk(D, ("switch", "f", blk(("case", 3, A), ("default", ("break",)))), Bs)), ("default", C))),
        # goto
        blk(C, ("label", "L", A), ("if", "x", ("goto", "L"), None)),
        blk(("if", "x", ("goto", "L"), None), A, ("label", "L", Bs)),
        blk(("if", "x", ("goto", "L"), None), ("if", "y", ("goto", "L"), None), A, ("label", "L", Bs), ("if", "z", ("goto", "L"), None)),
        blk(D, ("if", "x", blk(D3, A, ("goto", "L")), None), Bs, ("label", "L", C)),
        blk(D, blk(D3, ("if", "x", ("goto", "L"), None), A), Bs, ("label", "L", C)),
        blk(C, ("label", "L", A), blk(D, blk(D3, ("if", "x", ("goto", "L"), None), Bs))),
        blk(("if", "x", ("goto", "L"), None), blk(D, A, ("label", "L", Bs)), C),
        blk(blk(D, ("label", "L", A)), ("if", "x", ("goto", "L"), None)),
        blk(("goto", "M"), ("label", "L", A), ("goto", "N"), ("label", "M", Bs), ("goto", "L"), ("label", "N", C)),
        blk(("while", "x", blk(D, ("if", "y", ("goto", "L"), None), A)), ("label", "L", Bs)),
        blk(D3, ("switch", "e", blk(("case", 1, blk(D, ("goto", "L"))), ("case", 2, A))), Bs, ("label", "L", C)),
        blk(C, ("label", "L", ("while", "x", blk(D, A, ("if", "y", ("goto", "L"), None)))), Bs),
        blk(C, ("label", "L", ("label", "M", A)), ("if", "x", ("goto", "L"), ("if", "y", ("goto", "M"), None))),
        blk(("goto", "L"), ("switch", "e", blk(("case", 1, A), ("case", 2, ("label", "K", Bs)))), ("label", "L", C)),
    ]
    jumps = [("break",), ("continue",), ("if", "x", ("break",), None), ("if", "x", ("continue",), None),
             blk(D, ("if", "x", ("break",), None), S("m")), blk(D3, ("if", "x", ("continue",), S("m"))),
             blk(D, blk(D3, ("if", "x", ("break",), ("continue",)))), ("if", "x", ("return", "r"), ("break",)), S("m"), None]
    for j in jumps:
        for l in loops("1", blk(A, j, Bs) if j else A):
            out.append(l)
    for j in (("break",), ("continue",), ("if", "x", ("break",), None), blk(D, ("if", "x", ("continue",), None), S("m")),
              ("if", "x", ("return", "r"), None)):
        for inner in loops("2", blk(D, A, j)) + switches("2", blk(j, A)):
            for outer in loops("1", blk(DI, inner, Bs, ("if", "y", ("break",), None))) + switches("1", blk(D, inner, ("break",))):
                if j[0] == "continue" or (j[0] == "block"):
                    if not any(x in ("while", "do", "for") for x in (inner[0], outer[0])):
                        continue
                out.append(outer)
    return out


def randoms(n, seed):
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        cnt = [0]

        def nm(p):
            cnt[0] += 1
            return "%s%d" % (p, cnt[0])

        def gen(d, loop, sw, used):
            ch = ["st", "ex", "ret", "blk", "blk", "if", "if"]
            if loop or sw:
                ch += ["break"] * 3
            if loop:
                ch += ["continue"] * 2
            if d > 0:
                ch += ["while", "do", "for", "switch", "switch"]
            ch += ["goto"]
            c = rnd.choice(ch)
            if d <= 0 and c in ("blk", "if"):
                c = "st"
            if c == "st":
                return S(nm("s"))
            if c == "ex":
                return ("ex", nm("e"))
            if c == "ret":
                return ("if", nm("c"), ("return", rnd.choice([None, nm("r")])), None)
            if c == "break":
                return ("if", nm("c"), ("break",), None) if rnd.random() < .7 else ("break",)
            if c == "continue":
                return ("if", nm("c"), ("continue",), None) if rnd.random() < .7 else ("continue",)
            if c == "goto":
                return ("if", nm("c"), ("goto", rnd.choice("LM")), None)
            if c == "if":
                return ("if", nm("c"), gen(d - 1, loop, sw, used), gen(d - 1, loop, sw, used) if rnd.random() < .5 else None)
            if c == "blk":
                xs = []
                if rnd.random() < .6:
                    w = rnd.choice([1, 2, 3])
                    xs.append(("decl", w, nm("v") if w == 1 and rnd.random() < .5 else None))
                for _ in range(rnd.randint(1, 3)):
                    xs.append(gen(d - 1, loop, sw, used))
                if rnd.random() < .3:
                    xs.append(("decl", 1, None))
                    xs.append(gen(d - 1, loop, sw, used))
                return ("block",) + tuple(xs)
            if c == "while":
                return ("while", nm("c"), gen(d - 1, True, sw, used))
            if c == "do":
                return ("do", gen(d - 1, True, sw, used), nm("c"))
            if c == "for":
                return ("for", rnd.choice([None, nm("i")]), rnd.choice([None, nm("c"), nm("c")]), rnd.choice([None, nm("p")]), gen(d - 1, True, sw, used))
            if c == "switch":
                xs, ks = [], rnd.sample(range(-2, 9), 3)
                dflt = rnd.randint(0, 4)
                if rnd.random() < .3:
                    xs.append(("decl", 2, None))
                for q, k in enumerate(ks):
                    if q == dflt:
                        xs.append(("default", gen(d - 1, loop, True, used)))
                    xs.append(("case", k, gen(d - 1, loop, True, used)))
                    if rnd.random() < .6:
                        xs.append(("break",))
                    elif rnd.random() < .3:
                        xs.append(gen(d - 1, loop, True, used))
                return ("switch", nm("e"), ("block",) + tuple(xs))
        depth = rnd.choice([2, 3, 3])
        body = [S(nm("s")), ("decl", rnd.choice([1, 2]), None), gen(depth, False, False, None), ("label", "L", gen(depth - 1, False, False, None)),
                blk(("decl", 2, None), gen(depth - 1, False, False, None), ("label", "M", S(nm("s"))), gen(1, False, False, None)), gen(depth - 1, False, False, None)]
        out.append(("block",) + tuple(body))
    return out


REJECT = [(("break",), "break outside of a loop or switch"), (("continue",), "continue outside of a loop"),
          (("switch", "e", blk(("case", 1, ("continue",)))), "continue in a switch that is not in a loop"),
          (("case", 1, S("a")), "case outside of a switch"), (("default", S("a")), "default outside of a switch"),
          (("switch", "e", blk(("default", S("a")), ("default", S("b")))), "two default labels in a switch"),
          (blk(S("z"), ("label", "L", S("a")), ("label", "L", S("b"))), "a goto label defined twice"),
          (blk(("while", "x", S("a")), ("break",)), "break after a loop"),
          (blk(("switch", "e", blk(("case", 1, S("a")))), ("case", 2, S("b"))), "case after a switch")]


def one(p, g0, prog):
    g = g0.fork()
    t = Tree(g)
    n = t.build(prog)
    m = Meaning()
    k = m.r.end("end")
    e = m.go(prog, k, None, None, None)
    nm = text(prog)
    try:
        p.check(g, nm, nm, lambda: g.run("codegen_statement", n), [(m.r, e)], "statements", final=final)
    except RecursionError:
        raise Broken("recursion in " + nm)


def explore(r, want_frame=False, tier="quick"):
    progs = programs() + randoms(300 if tier == "quick" else 4000, 1)
    tasks = []
    N = 8 if tier == "quick" else 32
    for cfg in ("i386", "x64"):
        for part in range(N):
            def task(r, cfg=cfg, part=part):
                g = Gen(cfg)
                p = Prover(r, g, want_frame)
                for prog in progs[part::N]:
                    one(p, g, prog)
                if part == 0 and not want_frame:
                    for prog, what in REJECT:
                        h = g.fork()
                        n = Tree(h).build(prog)
                        try:
                            frags, dead = h.run("codegen_statement", n)
                        except BadCode:
                            frags = [1]
                        r.ob("rejection", not frags, what, "exe.c", "%s (%s) is accepted" % (what, text(prog)), {"construct": what})
                r.use(g.u, g.it.funcs_seen)
            tasks.append(("%s %d" % (cfg, part), task))
    r.parallel(tasks)


def run(r):
    for k, t in (("statements", "the machine code visits the same conditions, statements, returns and ends as the C statement, in the same order, on every path"),
                 ("rejection", "ill-placed jumps and labels end in a fatal error")):
        r.rule(k, t)
    r.trusted.append("x86 decoder lib/x86dec.py and abstract machine lib/native.py")
    explore(r, tier=r.tier)
    r.expect("statements", 400)
    r.expect("rejection", 10)
