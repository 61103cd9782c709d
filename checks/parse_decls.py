"""P03: declarations give every declared name the type C gives it."""
from frontend import CONFIGS
from front import Front, opcode
from parse_stmts import one

# type trees: "int" | ("*", q, t) | ("[", n, t) | ("(", params, variadic, t) ; q is "" or "const"


def declarator(t, name):
    """C declarator text for `name` of type t, and the specifier text it hangs on."""
    s, last = name, ""
    while isinstance(t, tuple) and t[0] in ("*", "[", "("):
        if t[0] == "*":
            s = "* " + ("const " if t[1] else "") + s
            last = "*"
            t = t[2]
        elif t[0] == "[":
            if last == "*":
                s = "( " + s + " )"
            s = s + " [ " + (str(t[1]) if t[1] else "") + " ]"
            last = "["
            t = t[2]
        else:
            if last == "*":
                s = "( " + s + " )"
            ps = [declare(p, n) for n, p in t[1]]
            if t[2]:
                ps.append("...")
            s = s + " ( " + (" , ".join(ps) if ps else "void" if t[1] == () else "") + " )"
            last = "("
            t = t[3]
    return t, s


def declare(t, name):
    b, s = declarator(t, name)
    return b[0] + " " + s


def tree(u, t):
    if t[0] == "*":
        return ("*", (1 << (opcode(u, "const") - opcode(u, "auto"))) if t[1] else 0, tree(u, t[2]))
    if t[0] == "[":
        return ("[", t[1], tree(u, t[2]))
    if t[0] == "(":
        return ("(", tuple(("decl", n or None, tree(u, p), None) for n, p in t[1]), int(t[2]), tree(u, t[3]))
    return t[1](u) if callable(t[1]) else t[1]


def B(text, *t):
    return (text, t if t else (text, 0))


INT, CHAR = B("int"), B("char")


def q(*kws):
    return lambda u: sum(1 << (opcode(u, k) - opcode(u, "auto")) for k in kws)


def specs(native):
    """(text, type tree function)"""
    out = [("int", "int", ()), ("char", "char", ()), ("short", "short", ()), ("short int", "short", ()), ("long", "int", ()), ("long int", "int", ()),
           ("long long", "long", ()), ("long long int", "long", ()), ("signed", "int", ()), ("signed int", "int", ()), ("signed char", "char", ()),
           ("signed short", "short", ()), ("signed long", "int", ()), ("signed long long", "long", ()), ("const int", "int", ("const",)), ("int const", "int", ("const",)),
           ("const char", "char", ("const",)), ("volatile int", "int", ("volatile",)), ("const volatile int", "int", ("const", "volatile")), ("inline int", "int", ()),
           ("const long long", "long", ("const",))]
    if native:
        for t, k in (("unsigned", "int"), ("unsigned int", "int"), ("unsigned char", "char"), ("unsigned short", "short"), ("unsigned short int", "short"),
                     ("unsigned long", "int"), ("unsigned long int", "int"), ("unsigned long long", "long"), ("unsigned long long int", "long")):
            out.append((t, k, ("unsigned",)))
            out.append(("const " + t, k, ("const", "unsigned")))
    return out


def shapes(depth, base, alts):
    """Every legal derivation of at most `depth` pointer/array/function steps from base."""
    if depth == 0:
        return [base]
    out = [base]
    for t in shapes(depth - 1, base, alts):
        out.append(("*", "", t))
        if "const" in alts:
            out.append(("*", "const", t))
        if t[0] != "(":
            out.append(("[", 3, t))
            if "open" in alts:
                out.append(("[", 0, t))
        if t[0] not in ("(", "["):
            out.append(("(", (("p", CHAR),), False, t))
            if "params" in alts:
                out.append(("(", (), False, t))
                out.append(("(", (("p", INT), ("q", ("*", "", CHAR))), False, t))
                out.append(("(", (("p", INT),), True, t))
                out.append(("(", (("", INT), ("", ("*", "", CHAR))), False, t))
    return out


def legal(t, inner=False):
    if t[0] == "*":
        return legal(t[2])
    if t[0] == "[":
        return t[2][0] != "(" and legal(t[2])
    if t[0] == "(":
        return t[3][0] not in ("(", "[") and legal(t[3])
    return True


def D(name, t, init=None):
    return ("decl", name, t, init)


def run_cfg(r, cfg, deep, part, parts):
    f = Front(cfg)
    u = f.u
    native = "INTEGER_HEX" not in u.consts
    ID = opcode(u, "IDENTIFIER")

    def glob(rule, name, txt, want):
        one(r, f, rule, name, txt, want, "parse_declaration", f.declaration, (0,))

    def local(rule, name, txt, want):
        one(r, f, rule, name, txt, want, "parse_declaration", f.declaration, (1,))

    todo = []
    base = lambda k: ("int", (k, 0))
    for depth, alts in ((4 if not deep else 5, ()), (3 if not deep else 4, ("const",)), (2 if not deep else 3, ("const", "open", "params"))):
        for t in shapes(depth, ("int", ("int", 0)), alts):
            todo.append(t)
    seen = set()
    for i, t in enumerate(todo):
        if not legal(t) or repr(t) in seen:
            continue
        seen.add(repr(t))
        if i % parts != part:
            continue
        b, d = declarator(t, "a")
        w = tree(u, t)
        glob("declarator", d, "int " + d + " ;", ("DECLS", 0, (D("a", w),)))
        ad = declarator(t, "")[1]
        if t[0] == "*" or t[0] == "int":
            # as a type name
            one(r, f, "type name", ad or "int", "( int " + ad + " ) a", ("CAST", w, "a"), "parse_expression", f.expr)
            one(r, f, "type name", "sizeof " + ad, "sizeof ( int " + ad + " )", ("sizeof", w), "parse_expression", f.expr)
        # two and three declarators share the specifiers, not the derivations
        if i % (3 if not deep else 1) == 0:
            glob("several declarators", d, "int " + d + " , b , * c ;", ("DECLS", 0, (D("a", w), D("b", ("int", 0)), D("c", ("*", 0, ("int", 0))))))
            glob("several declarators", "b, " + d, "int * b , " + d + " ;", ("DECLS", 0, (D("b", ("*", 0, ("int", 0))), D("a", w))))
        # as a parameter and as a structure member
        if t[0] not in ("(",):
            glob("parameter", d, "int f ( int " + d + " , char b ) ;", ("DECLS", 0, (D("f", ("(", (D("a", w), D("b", ("char", 0))), 0, ("int", 0))),)))
            glob("parameter", "abstract " + ad, "int f ( int " + ad + " , char ) ;", ("DECLS", 0, (D("f", ("(", (D(None, w), D(None, ("char", 0))), 0, ("int", 0))),)))
            glob("member", d, "struct S { char b ; int " + d + " ; } ;", ("tag", ("struct", 0, "S", (D("b", ("char", 0)), D("a", w)))))
    if part == 0:
        for t, k, qs in specs(native):
            w = (k, q(*qs)(u))
            glob("specifiers", t, t + " a ;", ("DECLS", 0, (D("a", w),)))
            glob("specifiers", "pointer to " + t, t + " * a ;", ("DECLS", 0, (D("a", ("*", 0, w)),)))
            local("specifiers", "local " + t, t + " a ;", ("DECLS", 0, (D("a", w),)))
            glob("specifiers", "parameter " + t, "int f ( " + t + " a ) ;", ("DECLS", 0, (D("f", ("(", (D("a", w),), 0, ("int", 0))),)))
            one(r, f, "specifiers", "cast to " + t, "( " + t + " ) a", ("CAST", w, "a"), "parse_expression", f.expr)
            for st in ("static", "extern", "auto", "register"):
                glob("storage class", st + " " + t, st + " " + t + " a ;", ("DECLS", opcode(u, st), (D("a", w),)))
                glob("storage class", t + " " + st, t + " " + st + " a ;", ("DECLS", opcode(u, st), (D("a", w),)))
        glob("specifiers", "void pointer", "void * a ;", ("DECLS", 0, (D("a", ("*", 0, ("void", 0))),)))
        glob("specifiers", "const void pointer", "const void * a ;", ("DECLS", 0, (D("a", ("*", 0, ("void", q("const")(u)))),)))
        # initialisers belong to their declarator
        i0 = ("int", 0)
        glob("initialiser", "scalar", "int a = $n1 ;", ("DECLS", 0, (D("a", i0, ("INTEGER", "n1")),)))
        glob("initialiser", "two", "int a = x , b = y ;", ("DECLS", 0, (D("a", i0, "x"), D("b", i0, "y"))))
        glob("initialiser", "first only", "int a = x , b ;", ("DECLS", 0, (D("a", i0, "x"), D("b", i0))))
        glob("initialiser", "last only", "int a , b = x ;", ("DECLS", 0, (D("a", i0), D("b", i0, "x"))))
        glob("initialiser", "assignment", "int a = b = c , d ;", ("DECLS", 0, (D("a", i0, ("=", "b", "c")), D("d", i0))))
        glob("initialiser", "conditional", "int a = b ? c : d , e = g ;", ("DECLS", 0, (D("a", i0, ("?", "b", "c", "d")), D("e", i0, "g"))))
        for n in (1, 2, 3):
            xs = ["x", "y", "z"][:n]
            for tr in ("", " ,"):
                glob("initialiser", "list of %d%s" % (n, tr), "int a [ ] = { " + " , ".join(xs) + tr + " } ;", ("DECLS", 0, (D("a", ("[", 0, i0), ("{",) + tuple(xs)),)))
        glob("initialiser", "list then declarator", "int a [ 2 ] = { x , y } , b = z ;", ("DECLS", 0, (D("a", ("[", 2, i0), ("{", "x", "y")), D("b", i0, "z"))))
        glob("initialiser", "string", "char a [ ] = $s1 ;", ("DECLS", 0, (D("a", ("[", 0, ("char", 0)), ("STRING", "s1")),)))
        if native:
            glob("initialiser", "nested lists", "int a [ ] = { { x , y } , { z } , w } ;", ("DECLS", 0, (D("a", ("[", 0, i0), ("{", ("{", "x", "y"), ("{", "z"), "w")),)))
        # array sizes are constant expressions
        for op, v in (("2 + 3", 5), ("2 * 3", 6), ("( 7 )", 7), ("9 - 4", 5), ("1 << 4", 16), ("$n1 + 1", None)):
            if v is not None:
                glob("array size", op, "int a [ " + op + " ] ;", ("DECLS", 0, (D("a", ("[", v, i0)),)))
        # function definitions
        fn = lambda ps, v=0, t=i0: ("(", tuple(ps), v, t)
        glob("function definition", "no parameters", "int f ( ) { return x ; }", ("FUN_DECL", D("f", fn([])), ("{", ("return", "x"))))
        glob("function definition", "void", "int f ( void ) { return x ; }", ("FUN_DECL", D("f", fn([])), ("{", ("return", "x"))))
        glob("function definition", "parameters", "char * f ( int a , char * b ) { a ; b ; }", ("FUN_DECL", D("f", fn([D("a", i0), D("b", ("*", 0, ("char", 0)))], 0, ("*", 0, ("char", 0)))), ("{", ("expr", "a"), ("expr", "b"))))
        glob("function definition", "variadic", "int f ( int a , ... ) { ; }", ("FUN_DECL", D("f", fn([D("a", i0)], 1)), ("{", None)))
        glob("function definition", "empty", "int f ( int a ) { }", ("FUN_DECL", D("f", fn([D("a", i0)])), None))
        fp = ("*", 0, fn([D(None, i0)]))
        fpv = ("*", 0, fn([D(None, i0)], 1))
        glob("function definition", "function pointer parameter", "int f ( int ( * g ) ( int ) , int b ) { b ; }", ("FUN_DECL", D("f", fn([D("g", fp), D("b", i0)])), ("{", ("expr", "b"))))
        glob("variadic flag", "of a pointer parameter stays there", "int f ( int a , int ( * g ) ( int , ... ) ) ;", ("DECLS", 0, (D("f", fn([D("a", i0), D("g", fpv)])),)))
        glob("variadic flag", "of a pointer parameter that is not last", "int f ( int ( * g ) ( int , ... ) , int a ) ;", ("DECLS", 0, (D("f", fn([D("g", fpv), D("a", i0)])),)))
        glob("variadic flag", "beside a pointer parameter", "int f ( int ( * g ) ( int ) , ... ) ;", ("DECLS", 0, (D("f", fn([D("g", fp)], 1)),)))
        glob("variadic flag", "function then function", "int f ( int a , ... ) , g ( int b ) ;", ("DECLS", 0, (D("f", fn([D("a", i0)], 1)), D("g", fn([D("b", i0)])))))
        # structures, unions
        for kw in ("struct", "union"):
            mem = (D("a", i0), D("b", ("*", 0, ("char", 0))), D("c", ("[", 4, i0)))
            body = "{ int a ; char * b ; int c [ 4 ] ; }"
            glob("structure", kw + " definition", kw + " S " + body + " ;", ("tag", (kw, 0, "S", mem)))
            glob("structure", kw + " definition with variables", kw + " S " + body + " x , * y ;", ("DECLS", 0, (D("x", (kw, 0, "S", mem)), D("y", ("*", 0, (kw, 0, "S", mem))))))
            glob("structure", kw + " reference", kw + " S x , * y ;", ("DECLS", 0, (D("x", (kw, 0, "S", ())), D("y", ("*", 0, (kw, 0, "S", ()))))))
            glob("structure", kw + " forward declaration", kw + " S ;", ("tag", (kw, 0, "S", ())))
            glob("structure", kw + " several declarators", kw + " S { int a , * b , c [ 2 ] ; } ;", ("tag", (kw, 0, "S", (D("a", i0), D("b", ("*", 0, i0)), D("c", ("[", 2, i0))))))
            glob("structure", "const " + kw, "const " + kw + " S x ;", ("DECLS", 0, (D("x", (kw, q("const")(u), "S", ())),)))
            glob("structure", kw + " self reference", kw + " S { int a ; " + kw + " S * n ; } ;", ("tag", (kw, 0, "S", (D("a", i0), D("n", ("*", 0, (kw, 0, "S", ())))))))
            glob("structure", kw + " nested", kw + " S { struct Q { int a ; } q ; int b ; } ;", ("tag", (kw, 0, "S", (D("q", ("struct", 0, "Q", (D("a", i0),))), D("b", i0)))))
            glob("structure", kw + " anonymous member", kw + " S { union { int a ; char b ; } ; int c ; } ;", ("tag", (kw, 0, "S", (D(None, ("union", 0, None, (D("a", i0), D("b", ("char", 0))))), D("c", i0)))))
            glob("structure", kw + " function pointer member", kw + " S { int ( * g ) ( int ) ; int c ; } ;", ("tag", (kw, 0, "S", (D("g", fp), D("c", i0)))))
            # a tag is not a typedef name, a typedef name may be a tag
            glob("structure", kw + " tag that is a typedef name", kw + " T * x ;", ("DECLS", 0, (D("x", ("*", 0, (kw, 0, "T", ()))),)))
        # enumerations: values count up from the last given one
        e = lambda *kv: tuple(("=", k, ("INTEGER", v)) for k, v in kv)
        glob("enumeration", "counted", "enum E { A , B , C } ;", ("tag", ("enum", 0, "E", e(("A", 0), ("B", -1), ("C", -2)))))
        glob("enumeration", "trailing comma", "enum { A , B , } ;", ("tag", ("enum", 0, None, e(("A", 0), ("B", -1)))))
        glob("enumeration", "given", "enum { A = 5 , B , C = 2 , D2 } ;", ("tag", ("enum", 0, None, e(("A", -5), ("B", -6), ("C", -2), ("D2", -3)))))
        glob("enumeration", "negative", "enum { A = - 5 , B , C } ;", ("tag", ("enum", 0, None, e(("A", 5), ("B", 4), ("C", 3)))))
        glob("enumeration", "expression", "enum { A = 1 << 4 , B , C = ( 3 + 4 ) * 2 , D2 } ;", ("tag", ("enum", 0, None, e(("A", -16), ("B", -17), ("C", -14), ("D2", -15)))))
        glob("enumeration", "with variables", "enum E { A } x , * y ;", ("DECLS", 0, (D("x", ("enum", 0, "E", e(("A", 0)))), D("y", ("*", 0, ("enum", 0, "E", e(("A", 0))))))))
        glob("enumeration", "reference", "enum E x ;", ("DECLS", 0, (D("x", ("enum", 0, "E", ())),)))
        # typedefs: the name denotes the declared type from then on
        for d, use, w in (("int", "", i0), ("char *", "", ("*", 0, ("char", 0))), ("int ( * %s ) ( int )", None, fp), ("int %s [ 3 ]", None, ("[", 3, i0)), ("int * %s [ 3 ]", None, ("[", 3, ("*", 0, i0))),
                          ("struct N { int a ; }", "", None), ("struct N { int a ; } *", "", None)):
            txt = "typedef " + (d % "N" if "%s" in d else d + " N") + " ;"
            if "struct" in d:
                s = ("struct", 0, "N", (D("a", i0),))
                w = ("*", 0, s) if d.endswith("*") else s
            glob("typedef", d, txt, ("typedef", (D("N", w),)))
            typedef_use(r, f, txt, d, w)
    r.use(u, f.it.funcs_seen)


def typedef_use(r, f, txt, name, w):
    """After the typedef the next declarations read the name as that type."""
    import front
    toks = f.lex(txt + " N x , * y ;")
    rs, dead = f.parse("parse_declaration", toks, (0,))
    ok = len(rs) == 1
    got = None
    where = "parse_declaration"
    if ok:
        _, st = rs[0]
        del f.it.deaths[:]
        rs = f.it.call("parse_declaration", [0], st)
        dead = list(f.it.deaths)
        ok = len(rs) == 1
        if ok:
            try:
                got = f.declaration(rs[0][1], rs[0][0])
                where = f.where(rs[0][0])
            except front.BadTree as e:
                got = str(e)
    want = ("DECLS", 0, (D("x", w), D("y", ("*", 0, w))))
    if not ok:
        where = " <- ".join(reversed(dead[0][4][-3:])) if dead else where
    r.ob("typedef use", ok and got == want, "typedef use %s" % name, where, "`%s` followed by `N x , * y ;` is parsed as %s, expected %s" % (txt, got, want), sample=txt)


def run(r):
    r.rule("declarator", "for every legal derivation of pointers, arrays and functions up to the depth bound, the declarator C spells it with is parsed to exactly that type")
    r.rule("type name", "the same for abstract declarators in casts and sizeof")
    r.rule("parameter", "the same for named and unnamed parameters")
    r.rule("member", "the same for structure members")
    r.rule("several declarators", "declarators of one declaration share the specifiers but not each other's derivations")
    r.rule("specifiers", "each combination of type specifiers and qualifiers denotes pnut's documented type")
    r.rule("storage class", "the storage class is recorded wherever among the specifiers it stands")
    r.rule("initialiser", "initialisers belong to their own declarator, in order")
    r.rule("array size", "array sizes are constant expressions")
    r.rule("function definition", "parameters, result type, variadic flag and body")
    r.rule("variadic flag", "`...` marks the parameter list it stands in and no other")
    r.rule("structure", "tags, members in order, nested and anonymous members")
    r.rule("enumeration", "enumerators count up by one from the last given value")
    r.rule("typedef", "a typedef declares its names with their types")
    r.rule("typedef use", "after a typedef its name denotes the declared type, also when the very next token uses it")
    cfgs = ["sh", "x64"] if r.tier == "quick" else ["sh", "sh-fast", "x64", "i386", "mac", "x64-release", "sh-release"]
    r.parallel([("%s/%d" % (c, k), lambda z, c=c, k=k: run_cfg(z, c, r.tier == "thorough", k, 8)) for c in cfgs for k in range(8)])
    r.expect("declarator", 100)
