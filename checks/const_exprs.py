"""P04: constant expressions have the value C gives them."""
import itertools
from frontend import CONFIGS
from front import Front, BadTree, Runaway
from cppref import scan, evaluate, CppError, Undefined

BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
VALS = [0, 1, 2, 3, 5, 7, 8, 10, 31, 127, 128, 255, 256, 1000, 32767, 65535, 65536, 46340, 1 << 20, 0x12345678, 0x7fffffff]
BAD = ["a", "a + 1", "1 + a", "f ( 1 )", "a [ 1 ]", "a . b", "a -> b", "& a", "* a", "a = 1", "1 = 2", "a ++", "++ a", "-- 1", "1 , 2", "sizeof ( int )", "sizeof a", "( int ) 1", "1 ? a : 2", "0 ? 1 : a",
       "1 +", "+", "( 1", "1 )", "1 2", "1 ? 2", "1 ? : 2", "", "1 / 0", "1 % 0", "5 / ( 3 - 3 )", "1 && 1 / 0", "0 || 1 % 0", "1 ? 1 / 0 : 1", "0 ? 1 : 1 / 0", "- ( 1 / 0 )", "( 1 / 0 ) && 0", "1 += 2", "! a", "~ f", "{ 1 }"]
SKIP_OK = ["0 && 1 / 0", "1 || 1 / 0", "1 ? 2 : 1 / 0", "0 ? 1 / 0 : 3", "0 && 1 % 0 || 4", "1 || 0 && 1 / 0"]


def exprs(deep):
    for v in VALS:
        for u in ("", "-", "~", "!", "+", "- -", "! !", "~ -", "- ~", "- !"):
            yield "%s %d" % (u, v)
            yield "%s ( %d )" % (u, v)
    vals = VALS if deep else VALS[:8] + [31, 255, 65535, 0x12345678, 0x7fffffff]
    for o in BIN:
        for a in vals:
            for b in vals:
                yield "%d %s %d" % (a, o, b)
        for a in (-1, -2, -7, 0, 1, 5, -0x7fffffff):
            for b in (-1, -3, 2, 4, -0x7fffffff):
                yield "%s %s %s" % (neg(a), o, neg(b))
    trip = [(1, 2, 3), (0, 1, 2), (6, 3, 2), (12, 5, 1), (1, 0, 4), (20, 3, 3)]
    for o in BIN:
        for p in BIN:
            for a, b, c in trip if deep else trip[:4]:
                yield "%d %s %d %s %d" % (a, o, b, p, c)
                yield "( %d %s %d ) %s %d" % (a, o, b, p, c)
                yield "%d %s ( %d %s %d )" % (a, o, b, p, c)
                yield "- %d %s ~ %d %s ! %d" % (a, o, b, p, c)
    for a, b, c in itertools.product((0, 1, 5), repeat=3):
        for f in ("%d ? %d : %d", "%d ? %d : %d ? 7 : 8", "%d ? 9 ? %d : 8 : %d", "%d || %d && %d", "%d && %d || %d", "( %d ? %d : %d ) + 1", "%d && ( %d ? %d : 3 )", "! %d ? %d : %d"):
            yield f % (a, b, c)
    for e in SKIP_OK:
        yield e


def neg(v):
    return "- %d" % -v if v < 0 else "%d" % v


def places():
    """(name, program, what the tree must say about the value v)"""
    yield "array size", "int x [ %s ] ;", lambda v: v if v >= 0 else None, lambda u, st, a: u.declaration(st, a)[2][0][2][1]
    yield "inner array size", "int x [ 2 ] [ %s ] ;", lambda v: v if v >= 0 else None, lambda u, st, a: u.declaration(st, a)[2][0][2][2][1]
    yield "enumerator", "enum { A = %s , B , C } ;", lambda v: (v, v + 1, v + 2), enums
    yield "last enumerator", "enum E { A = 3 , B , C = %s } ;", lambda v: (3, 4, v), enums
    yield "two enumerators", "enum E { A = %s , B , C = 40 , D } ;", lambda v: (v, v + 1, 40, 41), enums


def enums(u, st, a):
    nm, n, k = u.node(st, a)
    out = []
    l = k[2]
    while l:
        _, _, c = u.node(st, l)
        e = u.node(st, c[0])
        v = u.node(st, e[2][1])
        if not v[0].startswith("INTEGER"):
            raise BadTree("enumerator value %s" % v[0])
        x = v[2][0]
        out.append(-x if isinstance(x, int) else x)
        l = c[1]
    return tuple(out)


def observe(f, prog):
    """(value, None) or (None, why rejected)"""
    try:
        rs, deaths = f.parse("parse_declaration", f.lex(prog), [0])
    except Runaway:
        return None, "the parser loops"
    if deaths and not rs:
        return None, "rejected"
    return rs, deaths


def run_part(r, cfg, es):
    f = Front(cfg)
    r.use(f.u, [])
    for e in es:
        try:
            v = evaluate(scan(e)[0], 32)
            if any(t.k == "id" for t in scan(e)[0]):
                raise CppError("name")
        except Undefined:
            continue
        except (CppError, IndexError):
            v = None
        for place, prog, want, get in places():
            w = want(v) if v is not None else None
            if v is not None and (w is None or isinstance(w, tuple) and max(w) >= 1 << 31):
                continue
            if place not in ("array size", "enumerator") and len(e) > 12 and v is not None:
                continue
            if e == "" and place != "enumerator":
                continue
            if v is not None and v == 0 and "array" in place:
                continue        # arrays of no element are not C
            key = "%s %s" % (place, e)
            text = prog % e
            msg = None
            rs, deaths = observe(f, text)
            if rs is None:
                if v is not None:
                    msg = "`%s` is %s, the value is %d" % (text, deaths, v)
                elif deaths != "rejected":
                    msg = "`%s`: %s" % (text, deaths)
            else:
                if deaths and v is not None:
                    msg = "`%s` is rejected on some path" % text
                for a, st in rs:
                    if f.u and st.g["$pos"] <= len(f.toks):
                        msg = "`%s` is not consumed" % text
                        continue
                    if v is None:
                        msg = "`%s` is accepted" % text
                        continue
                    try:
                        got = get(f, st, a)
                    except BadTree as b:
                        got = str(b)
                    if got != w:
                        msg = "`%s` gives %s, C has %s" % (text, got, w)
            r.ob("rejected" if v is None else "value", msg is None, key, "eval_constant [%s]" % cfg, msg or "", sample=text if msg is None else None)
    r.use(f.u, list(f.it.funcs_seen))


def run(r):
    r.rule("value", "array sizes and enumerators written with any operators have the value C gives them; an enumerator without a value is one more than the one before")
    r.rule("rejected", "what is no constant expression of the subset (names, calls, assignments, casts, sizeof, division by zero in an evaluated operand, malformed expressions) is rejected")
    r.assumptions.append("results outside the 32-bit int range are undefined in C and not compared; enumerators and sizeof in constant expressions are not supported by pnut and rejected")
    cfgs = ["sh", "i386", "x64"] if r.tier == "quick" else list(CONFIGS)
    es = list(dict.fromkeys(exprs(r.tier == "thorough"))) + BAD
    N = 6
    r.parallel([("%s/%d" % (c, i), lambda q, c=c, i=i: run_part(q, c, es[i::N])) for c in cfgs for i in range(N)])
    r.expect("value", 2000)
    r.expect("rejected", 30)
