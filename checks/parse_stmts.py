"""P02: statements have the structure the C grammar gives them."""
from frontend import CONFIGS
from front import Front, BadTree, Runaway

# name -> (text with {0},{1} sub-statements and distinct expressions, number of sub-statements, tree builder, ends in an open if)


def E(x):
    return ("expr", x)


SIMPLE = {
    "expression": ("x = y ;", ("expr", ("=", "x", "y"))),
    "call": ("f ( x , y ) ;", ("expr", ("call", "f", ("x", "y")))),
    "comma": ("x , y ;", ("expr", (",", "x", "y"))),
    "parenthesised": ("( x ) ;", ("expr", "x")),
    "conditional": ("x ? y : z ;", ("expr", ("?", "x", "y", "z"))),
    "empty": (";", None),
    "empty block": ("{ }", None),
    "break": ("break ;", ("break",)),
    "continue": ("continue ;", ("continue",)),
    "return": ("return ;", ("return", None)),
    "return value": ("return x + y ;", ("return", ("+", "x", "y"))),
    "return comma": ("return x , y ;", ("return", (",", "x", "y"))),
    "goto": ("goto L ;", ("goto", "L")),
    "block": ("{ x ; }", ("{", E("x"))),
    "block of two": ("{ x ; y ; }", ("{", E("x"), E("y"))),
    "block of three": ("{ x ; ; z ; }", ("{", E("x"), None, E("z"))),
}
COMP = {
    "if": ("if ( p ) {0}", 1, lambda s: ("if", "p", s[0], None), True),
    "if comma": ("if ( p , q ) {0}", 1, lambda s: ("if", (",", "p", "q"), s[0], None), True),
    "if else": ("if ( p ) {0} else {1}", 2, lambda s: ("if", "p", s[0], s[1]), False),
    "while": ("while ( p ) {0}", 1, lambda s: ("while", "p", s[0]), False),
    "do": ("do {0} while ( p ) ;", 1, lambda s: ("do", s[0], "p"), False),
    "for": ("for ( p ; q ; r ) {0}", 1, lambda s: ("for", "p", "q", "r", s[0]), False),
    "for commas": ("for ( p , q ; r ; p , r ) {0}", 1, lambda s: ("for", (",", "p", "q"), "r", (",", "p", "r"), s[0]), False),
    "for empty": ("for ( ; ; ) {0}", 1, lambda s: ("for", None, None, None, s[0]), False),
    "for condition": ("for ( ; q ; ) {0}", 1, lambda s: ("for", None, "q", None, s[0]), False),
    "for init": ("for ( p ; ; ) {0}", 1, lambda s: ("for", "p", None, None, s[0]), False),
    "for step": ("for ( ; ; r ) {0}", 1, lambda s: ("for", None, None, "r", s[0]), False),
    "switch": ("switch ( p ) {0}", 1, lambda s: ("switch", "p", s[0]), False),
    "case": ("case $n1 : {0}", 1, lambda s: ("case", ("INTEGER", "n1"), s[0]), False),
    "case expression": ("case $n1 + $n2 : {0}", 1, lambda s: ("case", ("+", ("INTEGER", "n1"), ("INTEGER", "n2")), s[0]), False),
    "case conditional": ("case p ? $n1 : $n2 : {0}", 1, lambda s: ("case", ("?", "p", ("INTEGER", "n1"), ("INTEGER", "n2")), s[0]), False),
    "case character": ("case $c1 : {0}", 1, lambda s: ("case", ("CHARACTER", "c1"), s[0]), False),
    "default": ("default : {0}", 1, lambda s: ("default", s[0]), False),
    "label": ("L : {0}", 1, lambda s: (":", "L", s[0]), False),
    "block1": ("{ {0} }", 1, lambda s: ("{", s[0]), False),
    "block2": ("{ {0} {1} }", 2, lambda s: ("{", s[0], s[1]), False),
}
LOCALS = {
    "local": ("int v ;", ("DECLS", 0, (("decl", "v", ("int", 0), None),))),
    "local initialised": ("int v = x ;", ("DECLS", 0, (("decl", "v", ("int", 0), "x"),))),
    "locals": ("int v = x , * w = y ;", ("DECLS", 0, (("decl", "v", ("int", 0), "x"), ("decl", "w", ("*", 0, ("int", 0)), "y")))),
}


def fill(t, subs):
    for i, s in enumerate(subs):
        t = t.replace("{%d}" % i, s)
    return t


def make(c, subs):
    """(text, tree, ends in an if without else) of statement kind c with sub-statements subs, or None when C reads the text differently."""
    t, n, f, op = COMP[c]
    if c == "if else" and subs[0][2]:
        return None
    return fill(t, [s[0] for s in subs]), f([s[1] for s in subs]), c.startswith("if") and c != "if else" or n >= 1 and t.endswith("{%d}" % (n - 1)) and subs[n - 1][2]


def one(r, f, rule, name, txt, tree, fn="parse_statement", read=None, args=()):
    f_read = read or f.stmt
    where = fn
    msg = None
    try:
        rs, dead = f.parse(fn, f.lex(txt), args)
    except Runaway:
        rs, dead = [], []
        msg = "`%s`: the parser keeps reading past the end of the input" % txt
    if msg is None and len(rs) != 1:
        msg = "`%s` is rejected" % txt
        if dead:
            where = " <- ".join(reversed(dead[0][4][-3:]))
    elif msg is None:
        v, st = rs[0]
        if st.g["$pos"] != len(f.toks) + 1:
            msg = "`%s` is parsed only up to token %s" % (txt, st.g["$pos"] - 1)
        else:
            try:
                got = f_read(st, v)
            except BadTree as e:
                got = "bad tree: %s" % e
            if got != tree:
                msg = "`%s` is parsed as %s, C parses it as %s" % (txt, show(got), show(tree))
                where = f.where(v)
    return r.ob(rule, msg is None, name, where, msg or "", sample=txt if msg is None else None)


def show(t):
    if isinstance(t, tuple):
        return "(" + " ".join(show(x) for x in t) + ")"
    return "-" if t is None else str(t)


def run_cfg(r, cfg, deep, part, parts):
    f = Front(cfg)
    leaves = {k: (t, x, False) for k, (t, x) in SIMPLE.items()}
    if part == 0:
        for k, (t, x, _) in leaves.items():
            one(r, f, "simple statement", k, t, x)
        for k, (t, x) in LOCALS.items():
            one(r, f, "block with declarations", "{ %s }" % k, "{ " + t + " }", ("{", x))
            for k2, (t2, x2, _) in leaves.items():
                one(r, f, "block with declarations", "{ %s; %s }" % (k, k2), "{ %s %s }" % (t, t2), ("{", x, x2))
                one(r, f, "block with declarations", "{ %s; %s }" % (k2, k), "{ %s %s }" % (t2, t), ("{", x2, x))
                one(r, f, "block with declarations", "{ %s; %s; %s }" % (k, k2, k), "{ %s %s %s }" % (t, t2, t), ("{", x, x2, x))
    lv1 = {}
    for c in sorted(COMP):
        n = COMP[c][1]
        m = make(c, [leaves["call"], leaves["expression"]][:n])
        lv1[c] = m
    for c in sorted(COMP)[part::parts]:
        n = COMP[c][1]
        one(r, f, "compound statement", c, lv1[c][0], lv1[c][1])
        for i in range(n):
            for d, x in list(leaves.items()) + list(lv1.items()):
                subs = [leaves["call"], leaves["expression"]][:n]
                subs[i] = x
                m = make(c, subs)
                if m is None:
                    continue
                one(r, f, "nested statement", "%s with %s in position %d" % (c, d, i), m[0], m[1])
                if d in COMP:
                    for e in sorted(COMP):
                        s2 = [leaves["call"], leaves["expression"]][:COMP[e][1]]
                        s2[-1] = m
                        m2 = make(e, s2)
                        if m2 is not None:
                            one(r, f, "three levels", "%s of %s of %s" % (e, c, d), m2[0], m2[1])
                        if deep and COMP[e][1] > 1:
                            s2 = [m, leaves["expression"]]
                            m2 = make(e, s2)
                            if m2 is not None:
                                one(r, f, "three levels", "%s (first) of %s of %s" % (e, c, d), m2[0], m2[1])
    # the else belongs to the nearest if, whatever stands between
    if part == 1 % parts:
        for c in sorted(COMP):
            t, n, g, _ = COMP[c]
            if n != 1 or not t.endswith("{0}") or c.startswith("if"):
                continue
            txt = "if ( p ) " + fill(t, ["if ( q ) x ; else y ;"])
            one(r, f, "dangling else", c, txt, ("if", "p", g([("if", "q", E("x"), E("y"))]), None))
    r.use(f.u, f.it.funcs_seen)


def run(r):
    r.rule("simple statement", "each kind of simple statement yields its node with its expressions in order")
    r.rule("compound statement", "each kind of control statement yields its node with condition, parts and bodies in their places")
    r.rule("nested statement", "every statement kind in every sub-statement position of every control statement")
    r.rule("three levels", "the same for three nested statements")
    r.rule("dangling else", "an else belongs to the nearest if without one, whatever statements stand between")
    r.rule("block with declarations", "a block keeps declarations and statements in source order")
    cfgs = ["sh", "x64", "i386"] if r.tier == "quick" else ["sh", "sh-fast", "x64", "i386", "mac", "x64-release", "sh-release"]
    r.parallel([("%s/%d" % (c, k), lambda q, c=c, k=k: run_cfg(q, c, r.tier == "thorough", k, 8)) for c in cfgs for k in range(8)])
    r.expect("nested statement", 200)
