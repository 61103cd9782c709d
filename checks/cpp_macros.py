"""M02: macros are expanded as C says."""
import itertools
import random
from frontend import CONFIGS
from front import KW, Runaway
from cppref import Cpp, CppError, Undefined, number
import lex_tokens

# schema identifiers: one letter and one unknown digit (a private character stands for it in the reference)
SYM = {}
for _i, _c in enumerate("ABCDEFGHJKLMNPQTabcdefghjkmnpqrstvwxyz"):
    SYM[_c] = chr(0x3b1 + _i)
BACK = {v: ("v", "n" + k) for k, v in SYM.items()}


def spell(text):
    """Schema text -> text for the reference (every one-letter identifier gets its private character)."""
    out = []
    i = 0
    q = None
    while i < len(text):
        c = text[i]
        if q:
            out.append(c)
            if c == "\\":
                i += 1
                out.append(text[i])
            elif c == q:
                q = None
            i += 1
            continue
        if c in "\"'":
            q = c
            out.append(c)
            i += 1
            continue
        if c.isalpha() or c == "_":
            j = i
            while j < len(text) and (text[j].isalnum() or text[j] == "_"):
                j += 1
            w = text[i:j]
            out.append(w + SYM[w] if len(w) == 1 and w in SYM else w)
            i = j
            continue
        if c.isdigit():
            j = i
            while j < len(text) and (text[j].isalnum() or text[j] == "_"):
                j += 1
            out.append(text[i:j])
            i = j
            continue
        out.append(c)
        i += 1
    return "".join(out)


def sourcecodes(s):
    return [BACK.get(c, c) for c in s]


CONS = [(v, 48, 57) for v in BACK.values()]


def want_chars(s):
    if any(c in BACK for c in s):
        return tuple(BACK.get(c, ord(c)) for c in s)
    return s


def reference(text, files=None, search=None):
    out = []
    c = Cpp(files)
    c.search = search
    for t in c.run(text):
        if t.k == "id":
            out.append((t.t, None) if t.t in KW else ("IDENTIFIER", want_chars(t.t)))
        elif t.k == "num":
            out.append(("INTEGER", number(t.t)))
        elif t.k == "str":
            out.append(("STRING", want_chars(eval(t.t))))
        elif t.k == "chr":
            out.append(("CHARACTER", ord(eval(t.t))))
        else:
            out.append((t.t, None))
    return out


def observed(ck, text):
    """[token list or rejection text] over all paths."""
    out = []
    for toks, st in ck.L.tokens(sourcecodes(text), CONS):
        if toks and toks[-1][0] == "die":
            out.append("rejected: %s" % (toks[-1][1] or "division by zero",))
            continue
        l = []
        for k, v in toks:
            if isinstance(k, str) and k.startswith("INTEGER"):
                k, v = "INTEGER", ck.int_value(st, v)
            elif k in KW:
                v = None
            l.append((k, v))
        out.append(l)
    return out


def pretty(x):
    if isinstance(x, str):
        return x
    out = []
    for k, v in x:
        if isinstance(v, tuple):
            v = "".join(chr(c) if isinstance(c, int) else "" for c in v)
        out.append(k if v is None else repr(v) if k in ("STRING", "CHARACTER") else str(v))
    return " ".join(out) or "nothing"


def compare(r, ck, rule, key, text, must=True, where="get_tok", files=None, search=None):
    """must: the program is inside the supported subset, so it has to be accepted; else rejecting it is fine, but not a different result."""
    src = spell(text)
    ck.L.symid = {}
    files = {n: spell(t) for n, t in (files or {}).items()}
    ck.L.files = {n: sourcecodes(t) for n, t in files.items()}
    try:
        want = reference(src, files, search)
    except Undefined:
        return
    except CppError as e:
        want = "rejected: %s" % e
    msg = None
    try:
        for got in observed(ck, src):
            if isinstance(want, str):
                if not isinstance(got, str):
                    msg = "is accepted as %s, C rejects it (%s)" % (pretty(got), want)
            elif isinstance(got, str):
                if must:
                    msg = "is %s, C has %s" % (got, pretty(want))
            elif got != want:
                msg = "gives %s, C has %s" % (pretty(got), pretty(want))
    except Runaway:
        msg = "makes the preprocessor loop"
    r.ob(rule, msg is None, key, "%s [%s]" % (where, ck.cfg), msg and "`%s` %s" % (text.strip().replace("\n", " \\n "), msg), sample=None if msg else text)


def bodies(alpha, n):
    for k in range(n + 1):
        for b in itertools.product(alpha, repeat=k):
            yield " ".join(b)


ARGS = ["1", "a", "a b", "( a , b )", "B", "+", "", "G ( 2 )", "\"s,(\"", "','", "a ( 3 , 4 ) [ 5 ]"]


def jobs(deep, seed):
    rnd = random.Random(seed)
    D = "#define "
    # object-like macros
    for b in bodies(["a", "B", "A", "+", "1"], 3):
        pre = D + "B ( b + 2 )\n" + D + "A " + b + "\n"
        yield "object", "object " + b, pre + "[ A ] A;", True
        if b:
            yield "object", "object tight " + b, pre + "c A+A", True
    for t in ("\"s\"", "'c'", "123", "while", "->", "...", "<<=", "{", "}", "0x1F", "017", "~", "?", ":"):
        yield "object", "object body " + t, D + "A " + t + "\nA A", True
    yield "object", "object empty", D + "A\nA a A b A", True
    yield "object", "object defined later", D + "A B + B\nA\n" + D + "B 1\nA\n" + D + "B 2\nA\n#undef B\nA", True
    yield "object", "object redefined", D + "A 1\nA\n" + D + "A 2 A\nA\n#undef A\nA\n" + D + "A(x) x\nA A(3)\n", True
    yield "object", "undef of an unknown name", "#undef A\nA", True
    for sep in (" ", "\t", "  ", "/**/", " \\\n "):
        yield "object", "separator %r after the name" % sep, D + "A" + sep + "( 1 )\nA", True
        yield "object", "separator %r in a body" % sep, D + "A a" + sep + "b\nA", True
        yield "object", "separator %r in a directive" % sep, "#" + sep.replace("\\\n", "") + "define A 1\nA", True
        yield "function", "separator %r in a call" % sep, D + "F(x) < x >\nF" + sep + "(" + sep + "1" + sep + ")", True
    # chains and cycles
    names = "ABCDE"
    for n in (2, 3, 4, 5):
        for cyc in (False, True):
            ds = [D + "%s %s + %d" % (names[i], names[(i + 1) % n] if cyc or i < n - 1 else "z", i) for i in range(n)]
            for ord_ in (ds, ds[::-1]):
                yield "self reference" if cyc else "object", "chain of %d%s%s" % (n, " cyclic" if cyc else "", "" if ord_ is ds else " reversed"), "\n".join(ord_) + "\n" + " ; ".join(names[:n]), True
    for b in ("A", "A + A", "( A )", "A ( 1 )", "a A b"):
        yield "self reference", "self " + b, D + "A " + b + "\nA A;", True
    for b in ("F ( x )", "x + F ( x )", "F ( F ( x ) )", "F", "F x", "x F ( 1 ) x"):
        yield "self reference", "self function " + b, D + "F(x) " + b + "\nF(1) F(a) F (2);", True
    yield "self reference", "mutual functions", D + "F(x) G(x) + 1\n" + D + "G(x) F(x) * 2\nF(a) G(b)", True
    yield "self reference", "mutual function and object", D + "F(x) A x\n" + D + "A F(1)\nF(a) A", True
    # function-like macros
    for n, ps in ((1, "x"), (2, "x,y"), (3, "x,y,z")):
        alpha = ["x", "a", "+", "B"] + (["y"] if n > 1 else [])
        L = 3 if n < 3 else 2
        for b in bodies(alpha, L):
            sets = list(itertools.product(ARGS, repeat=n))
            k = len(sets) if n == 1 else (14 if not deep else 60)
            for a in sets if n == 1 else rnd.sample(sets, min(k, len(sets))):
                yield "function", "F(%s) %s with (%s)" % (ps, b, " , ".join(a)), D + "B 7\n" + D + "G(x) g x g\n" + D + "F(%s) %s\n[F(%s)]" % (ps, b, ",".join(a)), True
    for b in ("x", "x x", "( x )", "x + 1", "B x", "G ( x )", "G ( x ) + x", "x ( 1 )", "G ( G ( x ) )"):
        for a in ("1", "F ( 1 )", "F ( F ( 1 ) )", "G ( F ( 1 ) )", "B", "F ( B ) + F ( a )", "( F ( 1 ) )"):
            pre = D + "B 7\n" + D + "G(y) g + y\n" + D + "F(x) " + b + "\n"
            yield "nested calls", "F(x) %s with %s" % (b, a), pre + "F(%s) ; F ( %s )" % (a, a), True
            yield "nested calls", "F(x) %s with %s, defined in the other order" % (b, a), D + "F(x) " + b + "\n" + D + "G(y) g + y\n" + D + "B 7\nF(%s)" % a, True
    for a, b in itertools.product(("1", "M ( 1 , 2 )", "M ( M ( 1 , 2 ) , 3 )", "( 1 , 2 )", "a , b"), repeat=2):
        yield "nested calls", "two parameters %s | %s" % (a, b), D + "M(x,y) ((x) > (y) ? (x) : (y))\nM(%s,%s)" % (a, b), "," not in a.replace("M ( 1 , 2 )", "").replace("( 1 , 2 )", "") or "M" in a
    yield "function", "no parameters", D + "Z0() 5\nZ0() + Z0 ( ) ; Z0 + 1", True
    yield "function", "applied parameter", D + "F(f,x) f(x)\n" + D + "G(x) g + x\nF(G,1) F(h,2) F(G,G(3))", True
    yield "function", "object giving the name of a function", D + "F(x) < x >\n" + D + "A F\nA(1) A (2) A", True
    for follow in (";", "+ 1", "[ 1 ]", "", "a", "\n;", ") ;"):
        yield "function", "name without call before %r" % follow, D + "F(x) < x >\nF " + follow, True
        yield "function", "name without call in a body before %r" % follow, D + "F(x) < x >\n" + D + "A F " + follow.replace("\n", "") + "\nA ; A", True
    yield "function", "call over several lines", D + "F(x,y) < x | y >\nF\n(\na\n,\nb\n)\n;", True
    yield "function", "call over several lines with comments", D + "F(x,y) < x | y >\nF ( /* , ) */ a // , )\n , b ) ;", True
    yield "function", "parentheses, brackets and literals in arguments", D + "F(x,y) < x | y >\nF((a,(b,c)),d(1,(2),3)) F(\"(,\",',') F([1],{2})", False
    yield "function", "unused parameter", D + "F(x,y) a\nF(1,2) F((1,2),G)", True
    for call in ("F(1)", "F(1,2,3)", "F()", "F((1,2))", "F(1,", "F(", "F(1,(2)"):
        yield "arity", "two parameters called as %s" % call, D + "F(x,y) x y\n" + call, True
    yield "arity", "one parameter called with two", D + "F(x) x\nF(1,2)", True
    yield "arity", "no parameter called with one", D + "Z0() 1\nZ0(2)", True
    yield "arity", "no parameter called with two", D + "Z0() 1\nZ0(2,3)", True
    for n in (2, 3):
        for a in itertools.product(("", "1", "a b"), repeat=n):
            yield "empty arguments", "%d parameters (%s)" % (n, "|".join(a)), D + "F(%s) %s\n<F(%s)>" % (",".join("xyz"[:n]), " ! ".join("xyz"[:n]), ",".join(a)), True
    yield "empty arguments", "one parameter", D + "F(x) [ x ]\nF() F( ) F(\n)", True
    # pasting and stringizing
    OPD = ["a", "b", "while", "1", "23", "10", "0", "B", "T"]
    for l, rr in itertools.product(OPD, repeat=2):
        if l.isdigit() and not rr.isdigit():
            continue
        if l == "0":
            continue
        for body in ("x ## y", "x##y", "[ x ## y ]", "x ## y x y"):
            yield "paste", "%s with %s and %s" % (body, l, rr), D + "B 7\n" + D + "T(x) t\n" + D + "F(x,y) " + body + "\nF(%s,%s) ;" % (l, rr), True
        yield "paste", "object body %s ## %s" % (l, rr), D + "B 7\n" + D + "A %s ## %s\nA" % (l, rr), True
        yield "paste", "%s ## x with %s" % (l, rr), D + "B 7\n" + D + "F(x) %s ## x\nF(%s) F(%s) ;" % (l, rr, rr), True
        yield "paste", "x ## %s with %s" % (rr, l), D + "B 7\n" + D + "F(x) x ## %s\nF(%s) + 1 ;" % (rr, l), True
    for t in itertools.product(("a", "1", "B"), repeat=3):
        if t[0] == "1" and "1" != t[1]:
            continue
        if t[:2] == ("1", "1") and t[2] != "1":
            continue
        if t[1] == "1" and t[2] != "1":
            continue
        yield "paste", "chain %s" % " ".join(t), D + "B 7\n" + D + "F(x,y,z) x ## y ## z ;\nF(%s,%s,%s)" % t, True
    yield "paste", "result is a macro", D + "F(x,y) x ## y\n" + D + "a1 42\nF(a,1)", True
    yield "paste", "result is a keyword", D + "F(x,y) x ## y\nF(whi,le) F(in,t) F(int,eger)", True
    yield "paste", "nested, inner first", D + "C(x,y) x ## y\n" + D + "E(x,y) C(x,y)\n" + D + "v 7\nE(v,v) E(a,E(b,c)) C(v,v) E(v,1)", True
    for l, rr in (("", "a"), ("a", ""), ("", "1"), ("1", ""), ("a b", "c"), ("a", "b c"), ("a b", "c d"), ("( 1 )", "a"), ("1 +", "2")):
        yield "paste", "%s pasted to %s" % (l or "nothing", rr or "nothing"), D + "F(x,y) < x ## y >\nF(%s,%s)" % (l, rr), "(" not in l and "+" not in l
    for l, rr in itertools.product(("+", "-", "<", ".", "(", "\"s\"", "'c'", "a", "1", "=", "&"), repeat=2):
        if l in "a1" and rr in "a1":
            continue
        yield "paste", "outside the subset: %s ## %s" % (l, rr), D + "F(x) %s ## x\nF(%s)" % (l, rr), False
        yield "paste", "outside the subset: x ## %s with %s" % (rr, l), D + "F(x) x ## %s\nF(%s)" % (rr, l), False
    yield "paste", "## first", D + "F(x) ## x\n1", True
    yield "paste", "## last", D + "F(x) x ##\n1", True
    for a in ("a", "while", "B", "F", "x", "T"):
        yield "stringize", "#x of " + a, D + "B 7\n" + D + "T(x) t\n" + D + "F(x) #x\nF(%s) F( %s )" % (a, a), True
        yield "stringize", "#x in a body, of " + a, D + "B 7\n" + D + "F(x,y) ( # x , x , #y )\nF(%s,b) ;" % a, True
    # interaction with conditionals and with each other
    yield "interaction", "defined in a skipped group", "#if 0\n#define A 1\n#endif\nA", True
    yield "interaction", "undefined in a skipped group", "#define A 1\n#if 0\n#undef A\n#endif\nA", True
    yield "interaction", "redefined in a taken group", "#define A 1\n#ifdef A\n#define A 2\n#endif\nA", True
    yield "interaction", "parameter named like a macro", D + "B 7\n" + D + "F(B) B + x\nF(1) B", True
    yield "interaction", "parameter named like the macro", D + "F(F) F + 1\nF(2)", True
    yield "interaction", "body ends at the end of the line", D + "A a \\\n b\nc A", True
    yield "interaction", "body ends at a comment", D + "A a // b\nA " + "\n" + D + "B a /* b\n */ c\nB", True
    yield "interaction", "expansion next to tokens", D + "A 1\n-A+A", True
    yield "interaction", "macro names in strings and characters", D + "A 1\n\"A\" 'A' A", True
    yield "interaction", "# in a body is no directive", D + "F(x) # x\nF(define) F(a)", True


KF = [
    ("call through an object", "#define F(x) < x >\n#define A (1)\nF A"),
    ("call after an empty object", "#define F(x) < x >\n#define E\nF E (1)"),
    ("painted name", "#define F(x) x\nF(F)(3)"),
    ("painted name with two parameters", "#define G(x,y) x y\nG(G,(1,2))"),
    ("painted name in a body", "#define F(x) b x\nF(F) (2)"),
    ("undefined keyword", "#define int long\n#undef int\nint"),
]


def run_part(r, cfg, js):
    ck = lex_tokens.Check(r, cfg)
    for rule, key, text, must in js:
        compare(r, ck, rule, key, text, must)
    r.use(ck.L.u, list(ck.L.it.funcs_seen))


def run_known(r, cfg):
    ck = lex_tokens.Check(r, cfg)
    for key, text in KF:
        compare(r, ck, "rescan", key, text)


def run(r):
    r.rule("object", "an object-like macro is replaced by its tokens, rescanned; definitions apply from the definition to the next #undef or redefinition")
    r.rule("function", "a function-like macro followed by ( is replaced by its body with the macro-expanded arguments in place of the parameters; without ( it is an identifier")
    r.rule("nested calls", "calls as arguments and calls in bodies")
    r.rule("self reference", "a macro is not expanded again inside its own expansion")
    r.rule("arity", "the wrong number of arguments is rejected")
    r.rule("empty arguments", "an argument may be empty")
    r.rule("paste", "## joins the unexpanded operands (identifiers, keywords and decimal integers) into one token; other operands are rejected, never joined differently")
    r.rule("stringize", "# gives the spelling of an argument that is one identifier or keyword")
    r.rule("interaction", "macros with conditionals, comments, literals and line ends")
    r.rule("rescan", "names that a rescan reaches")
    r.assumptions.append("reference: the standard's expansion algorithm in lib/cppref.py; identifiers are a letter and an unknown digit, interned by spelling")
    cfgs = ["sh", "x64"] if r.tier == "quick" else ["sh", "sh-release", "x64", "i386", "mac", "x64-safe"]
    js = list(jobs(r.tier == "thorough", r.seed))
    N = 8
    tasks = []
    for c in cfgs:
        for i in range(N):
            tasks.append(("%s/%d" % (c, i), lambda q, c=c, i=i: run_part(q, c, js[i::N])))
        tasks.append(("%s/known" % c, lambda q, c=c: run_known(q, c)))
    r.parallel(tasks)
    r.expect("function", 500)
