"""Shell back end: statements transfer control as in C, in any nesting."""
import random
from frontend import Broken
from shref import show
from shcheck import Case, check
from sh_exprs import Suite, has

A, B, C = ("id", "?a"), ("id", "?b"), ("id", "?c")
G = ("glo", "?g")


class Names:
    """Distinct opaque actions and conditions."""

    def __init__(self):
        self.n = 0
        self.c = 0

    def act(self):
        self.n += 1
        return ("expr", ("call", "?h", [("num", self.n)]))

    def cond(self):
        self.c += 1
        k = self.c % 5
        if k == 0:
            return ("bin", "<", G, ("num", 10 + self.c))
        if k == 1:
            return G
        if k == 2:
            return ("call", "?h", [("num", 100 + self.c)])
        if k == 3:
            return ("bin", "==", A, ("num", self.c))
        return ("and", ("bin", "!=", G, ("num", self.c)), ("call", "?h", [("num", 100 + self.c)]))

    def val(self):
        self.c += 1
        return ("bin", "+", G, ("num", self.c))


# statements with holes; the holes are filled by functions of Names
def st_if(n, s, t=None):
    return ("if", n.cond(), s, t)


CONS = {
    "if": (1, lambda n, s: ("if", n.cond(), s, None)),
    "if else": (2, lambda n, s, t: ("if", n.cond(), s, t)),
    "if elif": (2, lambda n, s, t: ("if", n.cond(), s, ("if", n.cond(), t, None))),
    "if elif else": (3, lambda n, s, t, u: ("if", n.cond(), s, ("if", n.cond(), t, u))),
    "while": (1, lambda n, s: ("while", n.cond(), s)),
    "do": (1, lambda n, s: ("do", s, n.cond())),
    "for": (1, lambda n, s: ("for", n.act()[1] and ("expr", ("asg", "", C, ("num", 0))), n.cond(), ("pre", "+", C), s)),
    "for ever": (1, lambda n, s: ("for", None, None, ("call", "?h", [("num", 77)]), s)),
    "for cond": (1, lambda n, s: ("for", None, n.cond(), None, s)),
    "while 1": (1, lambda n, s: ("while", ("num", 1), s)),
    "do 0": (1, lambda n, s: ("do", s, ("num", 0))),
    "block": (2, lambda n, s, t: ("block", [s, t])),
    "block1": (1, lambda n, s: ("block", [s])),
    "decl": (1, lambda n, s: ("block", [("decl", [("?n", n.val())]), s, ("expr", ("call", "?h", [("id", "?n")]))])),
    "label": (1, lambda n, s: ("label", "?L", s)),
    "switch": (2, lambda n, s, t: ("switch", n.val(), [("case", ("num", 1), s), ("break",), ("case", ("num", 2), ("case", ("num", 3), t)), ("break",)])),
    "switch default": (2, lambda n, s, t: ("switch", n.val(), [("case", ("num", 1), s), ("break",), ("default", t), ("break",)])),
    "switch blocks": (2, lambda n, s, t: ("switch", A, [("case", ("num", 1), ("block", [s, ("break",)])), ("case", ("num", -2), ("block", [n.act(), t, ("break",)])), ("default", ("block", [n.act(), ("break",)]))])),
    "switch last": (1, lambda n, s: ("switch", n.val(), [("case", ("num", 4), n.act()), ("break",), ("case", ("const", "?E", 3), n.act()), s])),
    "switch return": (1, lambda n, s: ("switch", n.val(), [("case", ("num", 4), s), ("return", n.val()), ("default", ("return", n.val()))])),
    "switch call": (1, lambda n, s: ("switch", ("call", "?h", [A]), [("case", ("chr", 65), s), ("break",), ("default", n.act())])),
    "switch first": (1, lambda n, s: ("switch", n.val(), [("default", s), ("break",), ("case", ("num", 4), n.act()), ("break",)])),
    "switch middle": (1, lambda n, s: ("switch", n.val(), [("case", ("num", 3), n.act()), ("break",), ("default", s), ("break",), ("case", ("num", 4), n.act()), ("break",)])),
    "switch shared": (1, lambda n, s: ("switch", n.val(), [("case", ("num", 3), n.act()), ("break",), ("case", ("num", 6), ("default", s)), ("break",)])),
    "switch fallthrough": (1, lambda n, s: ("switch", n.val(), [("case", ("num", 3), s), ("case", ("num", 4), n.act()), ("break",)])),
}
ATOMS = {
    "call": lambda n: n.act(),
    "set": lambda n: ("expr", ("asg", "+", B, G)),
    "return e": lambda n: ("return", n.val()),
    "return call": lambda n: ("return", ("call", "?h", [("num", 55)])),
    "return": lambda n: ("return", None),
    "break": lambda n: ("break",),
    "continue": lambda n: ("continue",),
    "empty": lambda n: ("empty",),
    "nothing": lambda n: ("block", []),
    "call break": lambda n: ("block", [n.act(), ("break",)]),
    "call continue": lambda n: ("block", [n.act(), ("continue",)]),
    "call return": lambda n: ("block", [n.act(), ("return", n.val())]),
    "break call": lambda n: ("block", [("break",), n.act()]),
    "if break": lambda n: ("if", n.cond(), ("break",), None),
    "if continue": lambda n: ("if", n.cond(), ("continue",), n.act()),
    "if return": lambda n: ("if", n.cond(), ("return", n.val()), None),
    "if both": lambda n: ("if", n.cond(), ("block", [n.act(), ("return", n.val())]), ("break",)),
    "if set": lambda n: ("if", n.cond(), ("expr", ("asg", "", B, ("num", 3))), None),
}

LOOPS = ("while", "do", "for")


def valid(s, loop=False, sw=False):
    """break and continue stand inside what they leave."""
    k = s[0]
    if k == "break":
        return loop or sw
    if k == "continue":
        return loop
    if k in LOOPS:
        return valid(s[4] if k == "for" else s[2] if k == "while" else s[1], True, False)
    if k == "switch":
        return all(valid(x, loop, True) for x in s[2])
    if k == "if":
        return valid(s[2], loop, sw) and (not s[3] or valid(s[3], loop, sw))
    if k == "block":
        return all(valid(x, loop, sw) for x in s[1])
    if k in ("case", "default", "label"):
        return valid(s[-1], loop, sw)
    return True


def unsupported(s, in_switch=False, depth=0):
    """Statements the back end documents as unsupported: leaving a switch case early, fallthrough, default not last."""
    k = s[0]
    if k == "switch":
        body = s[2]
        at = 0
        for i, x in enumerate(body):
            if x[0] in ("case", "default"):
                if i and not leaves(body[i - 1]):
                    return True                   # fallthrough, or an end of the case it does not recognise
                y = x
                while y[0] in ("case", "default"):
                    if y[0] == "default" and any(z[0] in ("case", "default") for z in body[i + 1:]):
                        return True
                    y = y[-1]
                if unsupported(y, True):
                    return True
            else:
                if body[i - 1][0] in ("break", "return") or leaves(body[i - 1]):
                    return True                   # dead code ends the case
                if unsupported(x, True):
                    return True
        return False
    if k == "if":
        if in_switch and has(s[2:], ("break", "return", "continue")):
            return True
        return unsupported(s[2], in_switch) or bool(s[3] and unsupported(s[3], in_switch))
    if k in LOOPS:
        b = s[4] if k == "for" else s[2] if k == "while" else s[1]
        return unsupported(b, in_switch) or (in_switch and has(b, ("break", "return", "continue")))
    if k == "block":
        if s[1] and s[1][0][0] == "decl" and has(s[1][1:], ("decl",)):
            return True                           # shadowing
        return any(unsupported(x, in_switch) for x in s[1])
    if k in ("case", "default", "label"):
        return unsupported(s[-1], in_switch)
    if k == "continue":
        return in_switch
    return False


def leaves(s):
    """Does the statement always end its switch case in a way the back end sees?"""
    k = s[0]
    if k in ("break", "return"):
        return True
    if k == "block":
        return any(leaves(x) for x in s[1])
    if k in ("case", "default", "label"):
        return leaves(s[-1])
    if k == "if":
        return bool(s[3]) and leaves(s[2]) and leaves(s[3])
    return False


# surroundings of the statement: (name, body builder, tail?)
def around(n, s):
    yield "tail", [s]
    yield "followed", [s, n.act(), ("return", n.val())]
    yield "loop tail", [("while", n.cond(), ("block", [n.act(), s]))]
    yield "loop followed", [("while", n.cond(), ("block", [s, n.act()])), n.act(), ("return", n.val())]
    yield "do loop", [("do", ("block", [s, n.act()]), n.cond()), n.act()]
    yield "for loop", [("for", ("expr", ("asg", "", C, ("num", 0))), ("bin", "<", C, ("num", 2)), ("post", "+", C), ("block", [s, n.act()]))]
    yield "if tail", [("if", n.cond(), s, n.act())]
    yield "else tail", [("if", n.cond(), n.act(), ("block", [s]))]


def fill(name, picks, n):
    k, f = CONS[name]
    return f(n, *[p(n) for p in picks])


def plain(n):
    return n.act()


def jobs_pairs(quick):
    inner = {"atom " + a: f for a, f in ATOMS.items()}
    for c, (k, f) in CONS.items():
        inner[c] = lambda n, c=c, k=k: fill(c, [plain] * k, n)
    for c, (k, f) in CONS.items():
        for pos in range(k):
            for child, cf in inner.items():
                for an in ("tail", "followed", "loop followed", "loop tail", "do loop", "for loop", "if tail", "else tail"):
                    n = Names()
                    s = fill(c, [cf if i == pos else plain for i in range(k)], n)
                    body = dict(around(n, s))[an]
                    if an not in ("tail", "followed", "loop followed") and not (child.startswith("atom") or (has(s, ("return",)) and an == "loop tail")):
                        continue
                    if quick and an in ("do loop", "if tail", "followed") and not (has(s, ("return", "break", "continue")) and child.startswith("atom")):
                        continue
                    yield "%s: %s.%d %s" % (an, c, pos, child), body


def rand_stmt(r, n, depth, loop, sw):
    if depth == 0 or r.random() < 0.15:
        names = [a for a in ATOMS if valid(ATOMS[a](Names()), loop, sw)]
        return ATOMS[r.choice(names)](n)
    c = r.choice(list(CONS))
    k, f = CONS[c]
    lp = loop or c.split()[0] in LOOPS
    s = sw if c.split()[0] not in LOOPS else False
    if c.startswith("switch"):
        s = True
    for _ in range(20):
        t = f(n, *[rand_stmt(r, n, depth - 1, lp, s) for _ in range(k)])
        if valid(t, loop, sw):
            return t
    return n.act()


def jobs_random(seed, count):
    r = random.Random(seed)
    k = 0
    while k < count:
        n = Names()
        body = [rand_stmt(r, n, r.randint(2, 3), False, False) for _ in range(r.randint(1, 2))]
        if r.random() < 0.5:
            body.append(("return", n.val()))
        if len(repr(body)) > 1500 or any(unsupported(s) for s in body):
            continue
        k += 1
        yield "random: " + " ".join(show(s) for s in body), body


class Stmts(Suite):
    def go(self, rep, rule, key, body, budget):
        us = ["?a", "?b", "?c"]
        must = not any(unsupported(s) for s in body)
        case = Case("%s [%s]" % (key, self.cfg), us, body, ["?g"], must=must)
        check(rep, rule, case, self.cfg, self.base, budget=budget, prelude=self.prelude, sh_intr={"defstr": self.defstr}, max_paths=60)


def run(rep):
    rep.rule("pair", "every statement as every sub-statement of every statement, in every surrounding")
    rep.rule("random", "pseudo-random nestings of statements (seeded)")
    rep.trusted += ["shell semantics lib/shsem.py (POSIX sh grammar, control flow, set -e)", "reference C semantics lib/shref.py"]
    rep.assumptions += ["loops are followed for a bounded number of decisions per path"]
    quick = rep.tier != "thorough"
    tasks = []
    for cfg in ["sh"] if quick else ["sh", "sh-fast", "sh-release", "sh-safe"]:
        s = Stmts(cfg)
        rep.use(s.base.u, ["comp_statement", "comp_body", "comp_if", "comp_loop", "comp_switch", "make_switch_pattern", "comp_break", "comp_continue",
                           "comp_return", "comp_glo_fun_decl", "replay_glo_decls", "undo_glo_decls"])
        jobs = [("pair", k, b) for k, b in jobs_pairs(quick) if all(valid(x) for x in b)]
        jobs += [("random", k, b) for k, b in jobs_random(rep.seed, 400 if quick else 6000)]
        N = 24 if quick else 64
        for i in range(N):
            tasks.append(("%s/%d" % (cfg, i), lambda r, s=s, js=jobs[i::N]: [s.go(r, j[0], j[1], j[2], 5 if quick else 7) for j in js]))
    rep.parallel(tasks)
    rep.expect("pair", 1500)
    rep.expect("random", 300)
