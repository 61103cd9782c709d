"""M03: #include is replaced by the text of the file."""
import itertools
from frontend import CONFIGS
import lex_tokens
from cpp_macros import compare

END = [("a newline", "\n"), ("nothing", ""), ("blank lines", "\n\n \n"), ("a comment", "// c"), ("a closed comment", "/* c */"), ("spaces", "  "), ("a carriage return", "\r\n")]
AFTER = [("", ""), ("a space", " "), ("a tab", "\t"), ("a carriage return", "\r"), ("a line comment", " // c"), ("a comment", " /* c */"), ("two comments", "/* a *//* b */ // c"), ("stars", "/** a **/ "), ("a comment over lines", "/* a\n b */")]
BODY = [("one token", "h"), ("several lines", "h ;\n i ;\n\n j ;"), ("nothing", ""), ("only a comment", "/* c */"), ("a leading blank line", "\n\nh"), ("a leading comment", "// c\nh"), ("leading spaces", "   h"),
        ("a definition", "#define A 5"), ("a definition first and text", "#define A 5\nh A"), ("an indented directive", "  #define A 5\nh"), ("an undefinition", "#undef D"), ("a conditional", "#if 0\nh\n#else\ni\n#endif"), ("a skipped start", "#ifdef U\nh\n#endif\ni"),
        ("a guard", "#ifndef G\n#define G\nh\n#endif"), ("a macro definition over lines", "#define A 1 \\\n + 2\nA"), ("a function-like definition", "#define A(x) x +\nA(2)"), ("a string", "\"#include\" 'c'"), ("a # token", "h # i"), ("a start of a call", "D"), ("an operator", "+")]
DIRS = [("#include %s", "plain"), ("  # include %s", "spaced"), ("#include%s", "tight"), ("# /* c */ include /* d */ %s", "with comments"), ("#\tinclude\t%s", "tabs")]


def jobs(deep):
    D = "#define D 1\n"
    for (bn, b), (en, e) in itertools.product(BODY, END):
        if not b and en != "nothing" and not deep:
            pass
        f = {"h.h": b + (("\n" if e[:1] == "/" else "") + e)}
        for an, a in AFTER:
            if not deep and an not in ("", "a space", "a line comment", "a comment over lines") and (bn, en) not in (("one token", "a newline"), ("a definition", "nothing")):
                continue
            yield "text", "%s, ending with %s, %s after the directive" % (bn, en, an or "nothing"), D + "s\n#include \"h.h\"" + a + "\nt A D", f, None, True
        yield "text", "%s, ending with %s, directive first" % (bn, en), "#include \"h.h\"\nt A D", f, None, True
        yield "text", "%s, ending with %s, directive last" % (bn, en), D + "s\n#include \"h.h\"\n", f, None, True
        yield "text", "%s, ending with %s, directive on an unterminated last line" % (bn, en), D + "s\n#include \"h.h\"", f, None, True
        yield "text", "%s, ending with %s, included twice" % (bn, en), D + "s\n#include \"h.h\"\n#include \"h.h\"\nt A D", f, None, True
        yield "text", "%s, ending with %s, included twice apart" % (bn, en), D + "s\n#include \"h.h\"\nm\n#include \"h.h\"\nt A D", f, None, True
        yield "text", "%s, ending with %s, directive before a directive" % (bn, en), D + "#include \"h.h\"\n#define B 3\n#if B\nt A B\n#endif", f, None, True
        yield "text", "%s, ending with %s, only file" % (bn, en), "#include \"h.h\"", f, None, True
    f = {"h.h": "h\n"}
    for d, nm in DIRS:
        for an, a in AFTER:
            yield "directive", "%s directive, %s after it" % (nm, an or "nothing"), "s\n" + d % '"h.h"' + a + "\nt", f, None, True
            yield "directive", "%s directive, %s after it, at the end" % (nm, an or "nothing"), "s\n" + d % '"h.h"' + a, f, None, True
    for bad in ("x", "\"h.h\"", "+", "/ x", "1"):
        yield "directive", "%s after the file name" % bad, "s\n#include \"h.h\" " + bad + "\nt", f, None, False
    for bad in ("", " h.h", " 1", " +"):
        yield "directive", "#include%s" % bad, "s\n#include" + bad + "\nt", f, None, True
    # nesting
    for e in ("\n", "", "\n\n", " // c"):
        for e2 in ("\n", "", " /* c */", " \r\n"):
            ends = "ends %r %r" % (e, e2)
            fs = {"a.h": "a1\n#include \"b.h\"" + e, "b.h": "b1" + e2, "d/a.h": "da\n#include \"b.h\"" + e, "d/b.h": "db" + e2, "d/e/c.h": "dec\n#include \"b.h\"" + e, "d/e/b.h": "deb\n#include \"../b.h\"" + e2,
                  "d/e/../b.h": "up" + e2, "c.h": "c1\n#include \"d/a.h\"" + e, "x.h": "#include \"a.h\"" + e, "y.h": "#include \"x.h\"" + e, "z.h": "#include \"d/e/c.h\"" + e}
            for n in fs:
                if ".." in n:
                    continue
                for tail in ("\nt", "", "\n#include \"b.h\"", "\n#include \"d/b.h\"\nt"):
                    yield "nesting", "%s, %s, then %r" % (n, ends, tail), "s\n#include \"%s\"" % n + tail, fs, None, True
    for d in (".d", "..d", "d.", "d.e", ".d/.e", "d/.", "d/..", "./.d", "..", ".", "../..", "../d", "d/../e", "dir-1", "d e", "a.c", ".h", "d//e", "/abs", "/abs/.x", "d.c/e.h", "a_really_long_directory_name_that_goes_on_and_on/and_another_long_one_below_it"):
        for f_ in ("f.h", ".f.h", "f", "..f", "f.", ".f", "f.x.h", "_"):
            fs = {d + "/" + f_: "in1\n#include \"g.h\"\nin2", d + "/g.h": "g1\n#include \".k\"\n#include \"s/m.h\"\n", d + "/.k": "k1", d + "/s/m.h": "m1\n#include \"n.h\"", d + "/s/n.h": "n1", "g.h": "wrong", ".k": "wrong2", "n.h": "wrong3"}
            yield "nesting", "a file %s/%s" % (d, f_), "s\n#include \"%s/%s\"\nt" % (d, f_), fs, None, True
    for n in (3, 6, 10):
        for e in ("\n", "", "\nq"):
            fs = {"%sf%d.h" % ("p/" * i, i): "k%d\n#include \"p/f%d.h\"%s" % (i, i + 1, e) for i in range(n)}
            fs["%sf%d.h" % ("p/" * n, n)] = "last"
            yield "nesting", "chain of %d, ends %r" % (n, e), "s\n#include \"f0.h\"\nt", fs, None, True
    g = {"a.h": "#ifndef GA\n#define GA\n#include \"b.h\"\na\n#endif\n", "b.h": "#ifndef GB\n#define GB\n#include \"a.h\"\nb\n#endif\n"}
    yield "nesting", "guarded files including each other", "#include \"a.h\"\n#include \"b.h\"\n#include \"a.h\"\nt", g, None, True
    # conditionals
    for c, v in (("#if 0", 0), ("#if 1", 1), ("#ifdef U", 0), ("#ifndef U", 1)):
        yield "conditionals", c, "s\n%s\n#include \"h.h\"\n#else\nn\n#endif\nt" % c, f, None, True
        yield "conditionals", c + " with a missing file", "s\n%s\n#include \"none.h\"\n#else\nn\n#endif\nt" % c, f, None, True
        yield "conditionals", c + " around a file with a conditional", "%s\n#include \"i.h\"\n#else\nn\n#endif\nt" % c, {"i.h": "#if 1\nh\n#else\ni\n#endif"}, None, True
    yield "conditionals", "file that tests a macro of the including file", "#define A 1\n#include \"i.h\"\n#undef A\n#include \"i.h\"\nt", {"i.h": "#ifdef A\nh\n#else\ni\n#endif"}, None, True
    yield "conditionals", "including file that tests a macro of the file", "#include \"i.h\"\n#if A == 5\nx\n#else\ny\n#endif", {"i.h": "#define A 5"}, None, True
    # missing and search path
    yield "missing file", "missing file", "s\n#include \"none.h\"\nt", f, None, True
    yield "missing file", "file of another directory", "s\n#include \"h.h\"\nt", {"d/h.h": "h"}, None, True
    yield "missing file", "file of the including file's directory only", "#include \"d/a.h\"", {"d/a.h": "#include \"d/b.h\"", "d/b.h": "b"}, None, True
    yield "missing file", "empty name", "s\n#include \"\"\nt", f, None, True
    for a in ("", " ", " // c", " /* c */"):
        for e in ("\n", ""):
            fs = {"inc/h.h": "h" + e, "h.h": "no", "inc/sys/g.h": "g\n#include \"k.h\"" + e, "inc/sys/k.h": "k" + e, "inc/l.h": "#include <sys/g.h>" + a + e}
            for n in ("h.h", "sys/g.h", "l.h", "none.h"):
                yield "search path", "<%s> with %r after it, ends %r" % (n, a, e), "s\n#include <%s>%s\nt" % (n, a), fs, "inc/", True
                yield "search path", "<%s> without a search path, with %r after it, ends %r" % (n, a, e), "s\n#include <%s>%s\nt" % (n, a), fs, None, True
                yield "search path", "<%s> at the end with %r after it, ends %r" % (n, a, e), "s\n#include <%s>%s" % (n, a), fs, "inc/", True


def run_part(r, cfg, js):
    ck = lex_tokens.Check(r, cfg)
    base = ck.L.base
    known = "include_search_path" in ck.L.u.globals
    for rule, key, t, files, search, must in js:
        if search and not known:
            continue
        ck.L.base = base.copy()
        ck.L.base.g["include_search_path"] = 0 if search is None else ("s", search)
        compare(r, ck, rule, key, t, must, files=files, search=search)
    r.use(ck.L.u, list(ck.L.it.funcs_seen))


def run(r):
    r.rule("text", "the tokens of the file take the place of the directive, whatever the file's first and last characters are and wherever the directive is; definitions made in it stay")
    r.rule("directive", "spacing and comments in the directive; anything else after the file name is rejected")
    r.rule("nesting", "files including files; a quoted name is relative to the directory of the file that includes it")
    r.rule("conditionals", "a skipped #include has no effect; conditionals inside the file")
    r.rule("missing file", "a file that cannot be opened is rejected")
    r.rule("search path", "a bracketed name is searched in the include path and ignored without one")
    r.assumptions.append("fopen opens exactly the named files; conditionals are balanced in each file")
    cfgs = ["sh", "x64"] if r.tier == "quick" else [c for c in CONFIGS if c in ("sh", "sh-release", "sh-safe", "x64", "i386", "mac", "x64-safe")]
    js = list(jobs(r.tier == "thorough"))
    N = 8
    r.parallel([("%s/%d" % (c, i), lambda q, c=c, i=i: run_part(q, c, js[i::N])) for c in cfgs for i in range(N)])
    r.expect("text", 500)
