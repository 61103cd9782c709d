"""M01: conditional directives select the groups C selects."""
import itertools
from frontend import CONFIGS
import lex_tokens
from cpp_macros import compare

PRE = "#define D 1\n#define E 0\n#define F(x) x\n"
TRUE = ["#if 1", "#ifdef D", "#ifndef U", "#if D", "#if defined(D)", "#if defined D", "#if !defined(U)", "#if !U", "#if defined E && D", "#if F(1)", "#ifdef F", "#if D == 1 && !E"]
FALSE = ["#if 0", "#ifdef U", "#ifndef D", "#if E", "#if defined(U)", "#if defined U", "#if !defined(D)", "#if U", "#if defined U || E", "#if F(0)", "#ifndef F", "#if D > 1 || E"]
ELT = ["#elif 1", "#elif D", "#elif defined(D)", "#elif F(2)"]
ELF = ["#elif 0", "#elif U", "#elif defined(U)", "#elif E"]


def skeletons(n):
    """Directive sequences over T F t f e E (if-true, if-false, elif-true, elif-false, else, endif): all of length n that are well nested, then closed; and the ill-nested ones cut at the first error."""
    def go(seq, stack):
        if not stack or len(seq) == n:
            yield seq, len(stack)
        if len(seq) == n:
            return
        for d in "TFtfeE":
            if d in "TF":
                yield from go(seq + d, stack + "i")
            elif not stack:
                yield seq + d, -1
            elif d == "E":
                yield from go(seq + d, stack[:-1])
            elif stack[-1] == "l":
                continue       # a second #else or an #elif after it is outside the statement
            elif d == "e":
                yield from go(seq + d, stack[:-1] + "l")
            else:
                yield from go(seq + d, stack)
    return go("", "")


def text(seq, alt=0):
    out = [PRE + "s"]
    for i, d in enumerate(seq):
        k = (alt * 7 + i * 5) if alt else 0
        if d in "TF":
            l = (TRUE if d == "T" else FALSE)
            out.append(l[k % len(l)])
        elif d in "tf":
            l = (ELT if d == "t" else ELF)
            out.append(l[k % len(l)])
        else:
            out.append("#else" if d == "e" else "#endif")
        out.append("t%d %d" % (i, i))
    return "\n".join(out)


SKIPPED = ["x + y ;", "\"#endif\" '#'", "/* #endif */", "// #endif", "/*\n#endif\n*/", "#define A 9", "#undef D", "#error no", "#warning no", "#include \"none.h\"", "#include <none.h>",
           "#pragma whatever 1 2", "#line 3", "#foo bar", "#if 1/0\n#endif", "#if (\n#endif", "#if 0\n#else\nx\n#endif", "#if D\nx\n#elif 1/0\ny\n#else\nz\n#endif", "#ifdef A\nx\n#endif", "#ifndef A\nx\n#endif",
           "F(1", "F(1,2)", "A D E", "x # y", "x ## y", "\n\n\n", "# if 1\nx\n#  endif", "\t#\tif 1\nx\n\t#\telse\ny\n # endif", "{ ( [", "@", "`"]
EDGE = [
    ("no newline after #endif", "#if 1\nx\n#endif", True),
    ("no newline after a skipped #endif", "#if 0\nx\n#endif", True),
    ("spaces and comments around directives", "  #  if  1  \nx\n\t#\telse // c\ny\n # endif /* c */\nz", True),
    ("comment after #else and #endif", "#ifdef U // no\nx\n#else /* yes */\ny\n#endif /* U */\nz", True),
    ("carriage returns", "#if 0\r\nx\r\n#else\r\ny\r\n#endif\r\nz\r\n", True),
    ("empty groups", "#if 1\n#else\n#endif\n#if 0\n#else\n#endif\nz", True),
    ("blank lines between", "\n\n#if 1\n\n\nx\n\n\n#else\n\n\ny\n\n\n#endif\n\n\nz", True),
    ("adjacent directives", "#if 1\n#if 0\n#else\n#if 1\nx\n#endif\n#endif\n#endif\nz", True),
    ("# in the middle of a line is no directive", "x #if 0\ny", True),
    ("directive in a macro call's line", "F(1)\n#if 0\nx\n#endif\nF(2)", True),
    ("definition made in the taken group", "#if D\n#define A 1\n#else\n#define A 2\n#endif\nA", True),
    ("definition tested by a later #elif", "#if 0\n#define A 1\n#elif defined(A)\nx\n#else\ny\n#endif", True),
    ("#undef before a test", "#undef D\n#ifdef D\nx\n#else\ny\n#endif", True),
    ("#define of a tested name", "#ifndef A\n#define A\n#endif\n#ifdef A\nx\n#endif\n#ifndef A\ny\n#endif", True),
    ("condition uses the current definition", "#if D\nx\n#endif\n#undef D\n#define D 0\n#if D\ny\n#endif", True),
    ("condition on several lines", "#if D \\\n && \\\n E\nx\n#else\ny\n#endif", True),
    ("keyword macro", "#define int 1\n#ifdef int\nx\n#endif\n#if int\ny\n#endif", True),
    ("#if without condition", "#if\nx\n#endif", True),
    ("#if with a broken condition", "#if 1 +\nx\n#endif", True),
    ("#if with trailing tokens", "#if 1 2\nx\n#endif", True),
    ("#if with unbalanced parentheses", "#if (1\nx\n#endif", True),
    ("#elif with a broken condition", "#if 0\n#elif )\nx\n#endif", True),
    ("division by zero in a condition", "#if 1 / 0\nx\n#endif", True),
    ("remainder by zero in a condition", "#if 1 % E\nx\n#endif", True),
    ("division by zero behind &&", "#if E && 1 / 0\nx\n#else\ny\n#endif", True),
    ("division by zero behind ||", "#if D || 1 / 0\nx\n#else\ny\n#endif", True),
    ("division by zero in the other branch of ?:", "#if D ? 1 : 1 / 0\nx\n#endif", True),
    ("call in a condition", "#if U(1)\nx\n#endif", True),
    ("string in a condition", "#if \"x\"\nx\n#endif", True),
    ("assignment in a condition", "#if U = 1\nx\n#endif", True),
    ("#error in a taken group", "#ifdef D\n#error stop\n#endif\nx", True),
    ("#warning in a taken group", "#ifdef D\n#warning go on\n#endif\nx", True),
    ("unknown directive in a taken group", "#foo\nx", True),
    ("#ifdef with trailing tokens", "#ifdef D x\ny\n#endif", False),
]
for _k in ("if 1", "ifdef D", "ifndef D", "if 0"):
    EDGE.append(("unterminated #" + _k, "#%s\nx" % _k, True))
    EDGE.append(("unterminated #%s at the end of the file" % _k, "x\n#%s" % _k, True))
    EDGE.append(("unterminated inner #" + _k, "#if 1\n#%s\nx\n#endif" % _k, True))
    EDGE.append(("unterminated #else of #" + _k, "#%s\nx\n#else\ny" % _k, True))

BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]


def conditions(deep):
    vals = ["0", "1", "2", "3", "7"]
    for v in vals + ["D", "E", "U", "'a'", "'\\0'", "0x10", "010", "defined D", "defined(U)", "defined ( D )", "F(2)"]:
        for u in ("", "!", "-", "~", "+", "!!", "~-", "-~", "- -", "!-"):
            yield u + v
            yield "%s(%s)" % (u, v)
    for o in BIN:
        for a in ("0", "1", "2", "5", "-1", "-3"):
            for b in ("0", "1", "3", "-2"):
                if o in ("<<", ">>") and (b[0] == "-" or a[0] == "-"):
                    continue
                for want in ("0", "1", "2", "-1"):
                    yield "(%s %s %s) == %s" % (a, o, b, want)
    trip = [("1", "2", "3"), ("0", "1", "2"), ("6", "3", "2"), ("2", "0", "1"), ("1", "0", "0")]
    for o in BIN:
        for p in BIN:
            for a, b, c in trip if deep else trip[:3]:
                yield "%s %s %s %s %s" % (a, o, b, p, c)
                yield "(%s %s %s) %s %s" % (a, o, b, p, c)
                yield "%s %s (%s %s %s)" % (a, o, b, p, c)
    for a, b, c in itertools.product("012", repeat=3):
        yield "%s ? %s : %s" % (a, b, c)
        yield "(%s ? %s : %s) == 2" % (a, b, c)
        yield "%s ? %s : %s ? 0 : 1" % (a, b, c)
        yield "%s || %s && %s" % (a, b, c)
        yield "%s && %s || %s" % (a, b, c)


def jobs(deep):
    for seq, opened in skeletons(6 if deep else 5):
        yield "nesting", "nesting " + (seq or "none"), text(seq), True
        if opened == 0 and seq and len(seq) <= (6 if deep else 4):
            for alt in range(1, 7 if deep else 4):
                yield "conditions", "nesting %s, other conditions %d" % (seq, alt), text(seq, alt), True
    for l, v in ((TRUE, "taken"), (FALSE, "skipped")):
        for d in l:
            yield "conditions", "%s is %s" % (d, v), PRE + d + "\nx\n#else\ny\n#endif\nz", True
            yield "conditions", "%s is %s, with #elif" % (d, v), PRE + d + "\nx\n#elif 1\ny\n#endif\nz", True
            yield "conditions", "%s skipped in a skipped group" % d, PRE + "#if 0\n" + d + "\nx\n#else\ny\n#endif\nz\n#endif\nw", True
    lines = [s for s in SKIPPED if s not in ("@", "`", "F(1")]
    for s in lines:
        yield "skipped group", "skipped " + s, PRE + "#if 0\n%s\n#endif\nz A D" % s, True
        yield "skipped group", "skipped else " + s, PRE + "#if 1\na\n#else\n%s\n#endif\nz A D" % s, True
        yield "skipped group", "skipped after a taken elif " + s, PRE + "#if 0\n#elif 1\na\n#elif 1\n%s\n#else\n%s\n#endif\nz A D" % (s, s), True
        yield "skipped group", "skipped twice " + s, PRE + "#if 0\n#if 1\n%s\n#endif\n%s\n#else\na\n#endif\nz A D" % (s, s), True
        for t in lines if deep else lines[::5]:
            yield "skipped group", "skipped %s then %s" % (s, t), PRE + "#ifdef U\n%s\n%s\n#else\na\n#endif\nz A D" % (s, t), True
    for k, t, must in EDGE:
        yield "directive lines", k, PRE + t, must
        yield "directive lines", k + ", after text", PRE + "s ; " + "\n" + t, must
    for c in conditions(deep):
        yield "expressions", "#if " + c, PRE + "#if %s\nx\n#else\ny\n#endif\nz" % c, True
    for n in range(1, 10):
        for kind in ("#if 1", "#if 0", "#ifdef D", "#ifdef U"):
            yield "depth", "%d nested %s" % (n, kind), PRE + (kind + "\na\n") * n + "b\n" + "#else\nc\n#endif\n" * n + "d", True
    for n in (10, 11, 12, 15, 25):
        yield "depth", "%d nested" % n, PRE + "#if 1\na\n" * n + "b\n" + "#else\nc\n#endif\n" * n + "d", False


def run_part(r, cfg, js):
    ck = lex_tokens.Check(r, cfg)
    for rule, key, t, must in js:
        compare(r, ck, rule, key, t, must)
    r.use(ck.L.u, list(ck.L.it.funcs_seen))


def run(r):
    r.rule("nesting", "every sequence of #if, #elif, #else and #endif up to the bound keeps exactly the groups C keeps; a stray or missing directive is rejected")
    r.rule("conditions", "#ifdef, #ifndef, #if with defined, macros and undefined names in every position")
    r.rule("skipped group", "a skipped group has no effect whatever it contains")
    r.rule("directive lines", "spacing, comments, line ends and malformed directives")
    r.rule("expressions", "a condition has the value C gives it: every operator, every pair of operators, short circuits")
    r.rule("depth", "nesting as deep as the compiler allows; deeper is rejected, never wrong")
    r.assumptions.append("reference: lib/cppref.py; a skipped group consists of C tokens (characters outside C's source set in it are rejected, as elsewhere); #else after #else is accepted (outside the statement)")
    cfgs = ["sh", "x64"] if r.tier == "quick" else [c for c in CONFIGS if c in ("sh", "sh-release", "sh-safe", "x64", "i386", "mac", "x64-safe")]
    js = list(jobs(r.tier == "thorough"))
    N = 8
    r.parallel([("%s/%d" % (c, i), lambda q, c=c, i=i: run_part(q, c, js[i::N])) for c in cfgs for i in range(N)])
    r.expect("nesting", 500)
