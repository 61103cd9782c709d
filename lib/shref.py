"""C programs for the shell back end: schemas, their syntax trees, and their C meaning.

Expressions and statements are tuples.  build_* turns them into the syntax tree
the parser would make (parentheses become PARENS nodes where C's grammar needs
them); CRef gives them their C meaning in the World of shsem.

 ("num",n) ("hex",n) ("oct",n) ("chr",c) ("id",x) ("glo",g) ("str",text) ("const",name,value)
 ("bin",op,a,b) ("un",op,a) ("asg",op,lv,e) ("pre",op,lv) ("post",op,lv) ("idx",a,i) ("deref",e)
 ("arrow",e,member,offset) ("addr",lv) ("cond",c,a,b) ("call",f,args) ("and",a,b) ("or",a,b)
 ("cast",e) ("paren",e) ("sizeof_struct",name,size) ("sizeof_int",)
 ("expr",e) ("if",c,t,e) ("while",c,b) ("do",b,c) ("for",i,c,p,b) ("switch",e,[s...]) ("case",e,s)
 ("default",s) ("break",) ("continue",) ("return",e) ("block",[s...]) ("decl",[(x,init)...]) ("label",l,s) ("empty",)
"""
from absint import t_add, t_scale, is_int
from shsem import World, Oracle, Leave, Cutoff, arith, lnot, rel, split_name
from frontend import Broken

OPN = {"==": "EQ_EQ", "!=": "EXCL_EQ", "<=": "LT_EQ", ">=": "GT_EQ", "<<": "LSHIFT", ">>": "RSHIFT",
       "+=": "PLUS_EQ", "-=": "MINUS_EQ", "*=": "STAR_EQ", "/=": "SLASH_EQ", "%=": "PERCENT_EQ", "&=": "AMP_EQ",
       "|=": "BAR_EQ", "^=": "CARET_EQ", "<<=": "LSHIFT_EQ", ">>=": "RSHIFT_EQ", "=": "=",
       "&&": "AMP_AMP", "||": "BAR_BAR"}
PREC = {",": 0, "||": 3, "&&": 4, "|": 5, "^": 6, "&": 7, "==": 8, "!=": 8, "<": 9, ">": 9, "<=": 9, ">=": 9,
        "<<": 10, ">>": 10, "+": 11, "-": 11, "*": 12, "/": 12, "%": 12}


def prec(e):
    k = e[0]
    if k == "bin":
        return PREC[e[1]]
    if k == "asg":
        return 1
    if k == "cond":
        return 2
    if k == "or":
        return 3
    if k == "and":
        return 4
    if k in ("un", "pre", "deref", "addr", "cast", "sizeof_struct", "sizeof_int"):
        return 13
    if k in ("post", "idx", "arrow", "call"):
        return 14
    return 15


def show(e):
    """C text of an expression or statement (opaque names printed as they are)."""
    k = e[0]

    def p(x, n):
        s = show(x)
        return "(" + s + ")" if prec(x) < n else s
    if k == "num":
        return str(e[1])
    if k == "hex":
        return hex(e[1])
    if k == "oct":
        return "0%o" % e[1]
    if k == "chr":
        return repr(chr(e[1]))
    if k in ("id", "glo", "const"):
        return e[1].strip("?")
    if k == "str":
        return '"%s"' % e[1]
    if k == "bin":
        n = PREC[e[1]]
        return "%s %s %s" % (p(e[2], n), e[1], p(e[3], n + 1))
    if k in ("and", "or"):
        n = prec(e)
        return "%s %s %s" % (p(e[1], n), "&&" if k == "and" else "||", p(e[2], n + 1))
    if k == "un":
        s = p(e[2], 13)
        return e[1] + (" " if s[0] in "+-&" else "") + s
    if k == "asg":
        return "%s %s= %s" % (p(e[2], 13), e[1], p(e[3], 1))
    if k == "pre":
        return e[1] * 2 + p(e[2], 13)
    if k == "post":
        return p(e[2], 14) + e[1] * 2
    if k == "idx":
        return "%s[%s]" % (p(e[1], 14), show(e[2]))
    if k == "deref":
        return "*" + p(e[1], 13)
    if k == "arrow":
        return "%s->%s" % (p(e[1], 14), e[2].strip("?"))
    if k == "addr":
        return "&" + p(e[1], 13)
    if k == "cond":
        return "%s ? %s : %s" % (p(e[1], 3), show(e[2]), p(e[3], 2))
    if k == "call":
        return "%s(%s)" % (e[1].strip("?"), ", ".join(p(a, 1) for a in e[2]))
    if k == "cast":
        return "(int)" + p(e[1], 13)
    if k == "paren":
        return "(" + show(e[1]) + ")"
    if k == "sizeof_struct":
        return "sizeof(struct %s)" % e[1].strip("?")
    if k == "sizeof_int":
        return "sizeof(int)"
    if k == "expr":
        return show(e[1]) + ";"
    if k == "if":
        return "if(%s) %s%s" % (show(e[1]), show(e[2]), " else " + show(e[3]) if e[3] else "")
    if k == "while":
        return "while(%s) %s" % (show(e[1]), show(e[2]))
    if k == "do":
        return "do %s while(%s);" % (show(e[1]), show(e[2]))
    if k == "for":
        return "for(%s %s; %s) %s" % (show(e[1]) if e[1] else ";", show(e[2]) if e[2] else "", show(e[3]) if e[3] else "", show(e[4]))
    if k == "switch":
        return "switch(%s){%s}" % (show(e[1]), " ".join(show(s) for s in e[2]))
    if k == "case":
        return "case %s: %s" % (show(e[1]), show(e[2]))
    if k == "default":
        return "default: " + show(e[1])
    if k in ("break", "continue"):
        return k + ";"
    if k == "return":
        return "return%s;" % (" " + show(e[1]) if e[1] else "")
    if k == "block":
        return "{ %s }" % " ".join(show(s) for s in e[1])
    if k == "decl":
        return "int %s;" % ", ".join(x.strip("?") + (" = " + show(i) if i else "") for x, i in e[1])
    if k == "label":
        return "%s: %s" % (e[1].strip("?"), show(e[2]))
    if k == "empty":
        return ";"
    raise Broken("show " + k)


class Builder:
    def __init__(self, g):
        self.g = g

    def inty(self):
        return self.g.atom("INT_KW", 0)

    def ptr(self):
        return self.g.node("*", 0, self.inty())

    def p(self, e, n):
        t = self.expr(e)
        return self.g.node("PARENS", t) if prec(e) < n else t

    def lit(self, op, n):
        return self.g.atom(op, -n)

    def expr(self, e):
        g, k = self.g, e[0]
        if k == "num":
            if e[1] < 0:
                return g.node("-", self.lit("INTEGER", -e[1]))
            return self.lit("INTEGER", e[1])
        if k == "hex":
            return self.lit("INTEGER_HEX", e[1])
        if k == "oct":
            return self.lit("INTEGER_OCT", e[1])
        if k == "chr":
            return g.atom("CHARACTER", e[1])
        if k in ("id", "glo", "const"):
            return g.ident(e[1])
        if k == "str":
            return g.atom("STRING", g.string(e[1]))
        if k == "bin":
            n = PREC[e[1]]
            return g.node(OPN.get(e[1], e[1]), self.p(e[2], n), self.p(e[3], n + 1))
        if k in ("and", "or"):
            n = prec(e)
            return g.node("AMP_AMP" if k == "and" else "BAR_BAR", self.p(e[1], n), self.p(e[2], n + 1))
        if k == "un":
            return g.node(e[1], self.p(e[2], 13))
        if k == "asg":
            return g.node(OPN[e[1] + "="], self.p(e[2], 13), self.p(e[3], 1))
        if k == "pre":
            return g.node("PLUS_PLUS_PRE" if e[1] == "+" else "MINUS_MINUS_PRE", self.p(e[2], 13))
        if k == "post":
            return g.node("PLUS_PLUS_POST" if e[1] == "+" else "MINUS_MINUS_POST", self.p(e[2], 14))
        if k == "idx":
            return g.node("[", self.p(e[1], 14), self.expr(e[2]))
        if k == "deref":
            return g.node("*", self.p(e[1], 13))
        if k == "arrow":
            return g.node("ARROW", self.p(e[1], 14), g.ident(e[2]))
        if k == "addr":
            return g.node("&", self.p(e[1], 13))
        if k == "cond":
            return g.node("?", self.p(e[1], 3), self.expr(e[2]), self.p(e[3], 2))
        if k == "call":
            return g.node("(", g.ident(e[1]), g.list([self.p(a, 1) for a in e[2]]))
        if k == "cast":
            return g.node("CAST", g.node("DECL", 0, self.inty(), 0), self.p(e[1], 13))
        if k == "paren":
            return g.node("PARENS", self.expr(e[1]))
        if k == "sizeof_struct":
            return g.node("SIZEOF_KW", g.node("DECL", 0, g.node("STRUCT_KW", 0, g.ident(e[1]), 0), 0))
        if k == "sizeof_int":
            return g.node("SIZEOF_KW", g.node("DECL", 0, self.inty(), 0))
        raise Broken("expr " + k)

    def stmts(self, ss):
        """Statement list of a block; an empty block is 0."""
        g = self.g
        r = 0
        for s in reversed([x for x in ss]):
            r = g.node("{", self.stmt(s), r)
        return r

    def stmt(self, s):
        g, k = self.g, s[0]
        if k == "expr":
            return self.expr(s[1])
        if k == "if":
            return g.node("IF_KW", self.expr(s[1]), self.stmt(s[2]), self.stmt(s[3]) if s[3] else 0)
        if k == "while":
            return g.node("WHILE_KW", self.expr(s[1]), self.stmt(s[2]))
        if k == "do":
            return g.node("DO_KW", self.stmt(s[1]), self.expr(s[2]))
        if k == "for":
            return g.node("FOR_KW", self.stmt(s[1]) if s[1] else 0, self.expr(s[2]) if s[2] else 0,
                          self.expr(s[3]) if s[3] else 0, self.stmt(s[4]))
        if k == "switch":
            return g.node("SWITCH_KW", self.expr(s[1]), self.stmts(s[2]))
        if k == "case":
            return g.node("CASE_KW", self.expr(s[1]), self.stmt(s[2]))
        if k == "default":
            return g.node("DEFAULT_KW", self.stmt(s[1]))
        if k == "break":
            return g.atom("BREAK_KW")
        if k == "continue":
            return g.atom("CONTINUE_KW")
        if k == "return":
            return g.node("RETURN_KW", self.expr(s[1]) if s[1] else 0)
        if k == "block":
            return self.stmts(s[1])
        if k == "decl":
            return g.node("DECLS", g.list([g.node("DECL", g.ident(x), self.inty(), self.expr(i) if i else 0) for x, i in s[1]]), 0)
        if k == "label":
            return g.node(":", g.ident(s[1]), self.stmt(s[2]))
        if k == "empty":
            return 0
        raise Broken("stmt " + k)

    def function(self, name, params, body, void=False):
        g = self.g
        ps = g.list([g.node("DECL", g.ident(x), self.inty(), 0) for x in params])
        ret = g.atom("VOID_KW", 0) if void else self.inty()
        decl = g.node("DECL", g.ident(name), g.node("(", ret, ps, 0), 0)
        return g.node("FUN_DECL", decl, self.stmts(body))


class CRef:
    """C meaning of schemas, path by path."""

    def __init__(self, w, spell, intrinsics=None, steps=3000):
        self.w = w
        self.spell = spell
        self.loc = {}
        self.intr = intrinsics or {}
        self.steps = steps

    def gkey(self, g):
        return split_name("_" + self.spell(g))

    # ---- expressions
    def lv(self, e):
        k = e[0]
        if k == "id":
            return ("loc", e[1])
        if k == "glo":
            return ("key", self.gkey(e[1]))
        if k == "paren":
            return self.lv(e[1])
        if k == "cast":
            return self.lv(e[1])
        return ("key", ("_", self.address(e)))

    def address(self, e):
        k = e[0]
        if k == "idx":
            return t_add(self.ev(e[1]), self.ev(e[2]))
        if k == "deref":
            return self.ev(e[1])
        if k == "arrow":
            return t_add(self.ev(e[1]), e[3])
        if k in ("paren", "cast"):
            return self.address(e[1])
        raise Broken("address of " + k)

    def get(self, l):
        if l[0] == "loc":
            if l[1] not in self.loc:
                raise Broken("schema reads the uninitialised local %s" % l[1])
            return self.loc[l[1]]
        return self.w.read(l[1])

    def put(self, l, v):
        if l[0] == "loc":
            self.loc[l[1]] = v
        else:
            self.w.write(l[1], v)

    def ev(self, e):
        k = e[0]
        w = self.w
        if k in ("num", "hex", "oct", "chr"):
            return e[1]
        if k == "const":
            return e[2]
        if k == "str":
            return ("v", "str:" + e[1])
        if k in ("id", "glo", "idx", "deref", "arrow"):
            return self.get(self.lv(e))
        if k in ("paren", "cast"):
            return self.ev(e[1])
        if k == "bin":
            a = self.ev(e[2])
            b = self.ev(e[3])
            return b if e[1] == "," else arith(e[1], a, b)
        if k == "and":
            return int(w.o.decide(self.ev(e[1])) and w.o.decide(self.ev(e[2])))
        if k == "or":
            return int(w.o.decide(self.ev(e[1])) or w.o.decide(self.ev(e[2])))
        if k == "cond":
            return self.ev(e[2] if w.o.decide(self.ev(e[1])) else e[3])
        if k == "un":
            a = self.ev(e[2])
            return {"-": lambda: t_scale(a, -1), "+": lambda: a, "!": lambda: lnot(a), "~": lambda: arith("~", a, 0)}[e[1]]()
        if k == "asg":
            if e[1]:
                l = self.lv(e[2])
                o = self.get(l)
                v = arith(e[1], o, self.ev(e[3]))
            else:
                v = self.ev(e[3])
                l = self.lv(e[2])
            self.put(l, v)
            return v
        if k in ("pre", "post"):
            l = self.lv(e[2])
            o = self.get(l)
            n = t_add(o, 1, 1 if e[1] == "+" else -1)
            self.put(l, n)
            return n if k == "pre" else o
        if k == "addr":
            return self.address(e[1])
        if k == "call":
            vs = [self.ev(a) for a in e[2]]
            if e[1] in self.intr:
                return self.intr[e[1]](self, vs, e)
            return w.call(self.spell(e[1]), vs)
        if k == "sizeof_struct":
            return e[2]
        if k == "sizeof_int":
            return 1
        raise Broken("ev " + k)

    def cond(self, e):
        """A controlling expression: decided without building its truth value."""
        return self.w.o.decide(self.ev(e))

    # ---- statements
    def run(self, ss):
        for s in ss:
            self.st(s)

    def st(self, s):
        self.steps -= 1
        if self.steps < 0:
            raise Cutoff()
        k = s[0]
        if k == "expr":
            self.ev(s[1])
        elif k == "if":
            if self.cond(s[1]):
                self.st(s[2])
            elif s[3]:
                self.st(s[3])
        elif k == "while":
            while self.cond(s[1]):
                if not self.body(s[2]):
                    break
        elif k == "do":
            while True:
                if not self.body(s[1]) or not self.cond(s[2]):
                    break
        elif k == "for":
            if s[1]:
                self.st(s[1])
            while not s[2] or self.cond(s[2]):
                if not self.body(s[4]):
                    break
                if s[3]:
                    self.ev(s[3])
        elif k == "switch":
            self.switch(s)
        elif k in ("case", "default", "label"):
            self.st(s[-1])
        elif k in ("break", "continue"):
            raise Leave(k)
        elif k == "return":
            v = self.ev(s[1]) if s[1] else None
            raise Return(v)
        elif k == "block":
            self.run(s[1])
        elif k == "decl":
            for x, i in s[1]:
                if i:
                    self.loc[x] = self.ev(i)
        elif k == "empty":
            pass
        else:
            raise Broken("st " + k)

    def body(self, s):
        self.steps -= 1
        if self.steps < 0:
            raise Cutoff()
        try:
            self.st(s)
        except Leave as l:
            if l.kind == "break":
                return False
            if l.kind != "continue":
                raise
        return True

    def switch(self, s):
        v = self.ev(s[1])
        # labels at the top level of the body, in order
        at = None
        dflt = None
        for i, x in enumerate(s[2]):
            while x[0] in ("case", "default"):
                if x[0] == "case":
                    if at is None and self.w.o.decide(rel("==", v, self.ev(x[1]))):
                        at = i
                    x = x[2]
                else:
                    dflt = i
                    x = x[1]
        if at is None:
            at = dflt
        if at is None:
            return
        try:
            self.run(s[2][at:])
        except Leave as l:
            if l.kind != "break":
                raise


class Return(Exception):
    def __init__(self, v):
        self.v = v
