"""P01: expressions are grouped by C's precedence and associativity."""
from frontend import CONFIGS, Broken
from front import Front, BadTree, Runaway
import cgram
from cgram import BIN, ASG, UN


def kinds(sh):
    """One constructor per kind of expression: name -> (number of operands, builder)."""
    d = {}
    for l in BIN:
        for o in l:
            d["bin" + o] = (2, lambda x, o=o: ("bin", o, x[0], x[1]))
    for o in ASG:
        d["asg" + o] = (2, lambda x, o=o: ("asg", o, x[0], x[1]))
    for o in UN:
        d["un" + o] = (1, lambda x, o=o: ("un", o, x[0]))
    for o in ("++", "--"):
        d["pre" + o] = (1, lambda x, o=o: ("pre", o, x[0]))
        d["post" + o] = (1, lambda x, o=o: ("post", o, x[0]))
    d["cond"] = (3, lambda x: ("cond", x[0], x[1], x[2]))
    d["comma"] = (2, lambda x: ("comma", x[0], x[1]))
    for t in ("int", "char *", "T", "struct S *"):
        d["cast " + t] = (1, lambda x, t=t: ("cast", t, x[0]))
        d["sizeof " + t] = (0, lambda x, t=t: ("sizeofT", t))
    d["sizeof"] = (1, lambda x: ("sizeof", x[0]))
    d["call0"] = (1, lambda x: ("call", x[0], []))
    d["call1"] = (2, lambda x: ("call", x[0], [x[1]]))
    d["call2"] = (3, lambda x: ("call", x[0], [x[1], x[2]]))
    d["call3"] = (4, lambda x: ("call", x[0], [x[1], x[2], x[3]]))
    d["idx"] = (2, lambda x: ("idx", x[0], x[1]))
    for o in (".", "->"):
        d["mem" + o] = (1, lambda x, o=o: ("mem", o, x[0], "m"))
    return d


LITS = {True: ["$n0", "$c0", "$s0", "$x0", "$o0"], False: ["$n0", "$c0", "$s0", "$l0", "$u0", "$L0", "$U0", "$k0"]}
VARS = "abcdefgh"


def build(ks, name, subs, base=0):
    n, f = ks[name]
    xs = []
    for i in range(n):
        xs.append(subs[i] if i in subs else VARS[base + i])
    return f(xs)


def one(r, f, rule, t, rep):
    txt = cgram.text(t)
    try:
        rs, dead = f.parse("parse_expression", f.lex(txt))
    except Runaway:
        r.ob(rule, False, "%s: `%s` does not stop at the end of the input" % (f.cfg, txt), "parse_expression", "the parser keeps reading past the end of the input")
        return
    msg = None
    where = "parse_expression"
    if len(rs) != 1:
        msg = "`%s` is rejected" % txt
        if dead:
            where = " <- ".join(reversed(dead[0][4][-3:]))
    else:
        v, st = rs[0]
        if st.g["$pos"] != len(f.toks) + 1:
            msg = "`%s` is parsed only up to token %d" % (txt, st.g["$pos"] - 1)
        else:
            try:
                got = f.expr(st, v)
            except BadTree as e:
                got = ("bad tree: %s" % e,)
            if got != cgram.want(t):
                msg = "`%s` is parsed as %s, C parses it as %s" % (txt, cgram_show(got), cgram_show(cgram.want(t)))
                where = f.where(v)
    r.ob(rule, msg is None, "parse %s" % rep, where, msg or "", sample=txt if msg is None else None)


def cgram_show(t):
    if isinstance(t, tuple):
        return "(" + " ".join(cgram_show(x) for x in t) + ")"
    return str(t)


REPS = ["bin||", "bin|", "bin^", "bin&", "bin&&", "bin==", "bin!=", "bin<", "bin<<", "bin-", "bin*", "bin/", "asg=", "asg-=", "un-", "un*", "pre++", "post++",
        "cond", "comma", "cast int", "cast T", "sizeof", "call1", "call2", "idx", "mem."]


def run_cfg(r, cfg, deep, part, parts):
    f = Front(cfg)
    sh = "INTEGER_HEX" in f.u.consts
    ks = kinds(sh)
    for l in LITS[sh] if part == 0 else []:
        one(r, f, "primary", ("lit", l), "literal " + l)
        one(r, f, "primary", ("bin", "-", "a", ("lit", l)), "literal operand " + l)
    for p in sorted(ks)[part::parts]:
        one(r, f, "constructor", build(ks, p, {}), p)
        for i in range(ks[p][0]):
            for c in sorted(ks):
                one(r, f, "nesting", build(ks, p, {i: build(ks, c, {}, 4)}), "%s operand %d is %s" % (p, i, c))
    # two operands at once, and chains of three levels, over one representative per grammar level
    for p in REPS[part::parts]:
        n = ks[p][0]
        for c in REPS:
            for d in REPS:
                for i in range(n):
                    for j in range(ks[c][0]):
                        if not deep and (i, j) not in ((0, 0), (n - 1, ks[c][0] - 1)):
                            continue
                        one(r, f, "three levels", build(ks, p, {i: build(ks, c, {j: build(ks, d, {}, 5)}, 3)}), "%s operand %d is %s operand %d is %s" % (p, i, c, j, d))
                if deep and n > 1:
                    one(r, f, "both operands", build(ks, p, {0: build(ks, c, {}, 2), n - 1: build(ks, d, {}, 4)}), "%s of %s and %s" % (p, c, d))
    r.use(f.u, [x for x in f.it.funcs_seen])


def run(r):
    r.rule("primary", "every kind of literal and an identifier is a primary expression whose node carries the token's kind and value")
    r.rule("constructor", "each C operator builds the node of that operator with its operands in source order")
    r.rule("nesting", "for every operator, operand position and operator of the operand (printed with the fewest parentheses C allows) the parser builds exactly that tree: all pairs of operators have C's relative precedence and associativity")
    r.rule("three levels", "the same for chains of three nested operators, one representative per grammar level")
    r.rule("both operands", "the same with compound first and last operands")
    r.assumptions.append("parentheses are transparent; the lexer's contract (get_tok) is property L01's subject")
    cfgs = ["sh", "x64", "i386"] if r.tier == "quick" else ["sh", "sh-fast", "x64", "i386", "mac", "x64-release", "sh-release"]
    tasks = []
    for c in cfgs:
        if c in CONFIGS:
            for k in range(8):
                tasks.append(("%s/%d" % (c, k), lambda q, c=c, k=k: run_cfg(q, c, r.tier == "thorough", k, 8)))
    r.parallel(tasks)
    r.expect("nesting", 1000)
