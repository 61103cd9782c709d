"""Reference C preprocessor (C99 6.10) on token lists, independent of the compiler.

Tokens are (kind, text); kinds: id, num, chr, str, op.  The expansion follows
the standard's algorithm (arguments expanded separately unless they are an
operand of # or ##, rescanning, a name is not expanded inside its own
expansion)."""
import re

KW = set("auto break case char const continue default do double else enum extern float for goto if inline int long register "
         "return short signed sizeof static struct switch typedef union unsigned void volatile while".split())
RX = re.compile(r"""(?P<ws>(?:[ \t\r\f\v]|\\\n|/\*.*?\*/|//[^\n]*)+)|(?P<nl>\n)|(?P<id>[A-Za-z_]\w*)|(?P<num>\.?[0-9](?:[\w.])*)
|(?P<chr>'(?:\\.|[^'\\\n])*')|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<op>\.\.\.|<<=|>>=|\#\#|->|\+\+|--|&&|\|\||<<|>>|[-+*/%&|^<>=!]=|[-~.?,:;(){}+*/%&|^!<>=\[\]\#])""", re.X | re.S)


class CppError(Exception):
    pass


def scan(text):
    """Lines of tokens; a token is (kind, text, preceded by space)."""
    lines = [[]]
    i = 0
    sp = False
    while i < len(text):
        m = RX.match(text, i)
        if not m:
            raise CppError("character %r" % text[i])
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            if "\n" in m.group() and "\\\n" not in m.group():
                pass
            sp = True
        elif k == "nl":
            lines.append([])
            sp = True
        else:
            lines[-1].append(Tok(k, m.group(), frozenset(), sp))
            sp = False
    return lines


class Tok:
    __slots__ = ("k", "t", "hs", "sp")

    def __init__(self, k, t, hs=frozenset(), sp=False):
        self.k, self.t, self.hs, self.sp = k, t, hs, sp

    def hide(self, hs):
        return Tok(self.k, self.t, self.hs | hs, self.sp)

    def __repr__(self):
        return self.t


class Cpp:
    def __init__(self, files=None, predefined=()):
        self.files = files or {}
        self.m = {}
        for n, body in predefined:
            self.m[n] = (None, scan(body)[0])
        self.out = []

    # ---- expansion
    def expand(self, ts):
        ts = list(ts)
        out = []
        while ts:
            t = ts.pop(0)
            if t.k != "id" or t.t not in self.m or t.t in t.hs:
                out.append(t)
                continue
            params, body = self.m[t.t]
            if params is None:
                ts = self.subst(body, [], [], t.hs | {t.t}) + ts
                continue
            if not ts or ts[0].t != "(":
                out.append(t)
                continue
            args, rest, close = self.args(ts, t.t)
            if len(args) != len(params):
                if not (len(params) == 0 and args == [[]]):
                    raise CppError("arity of " + t.t)
                args = []
            ts = self.subst(body, params, args, (t.hs & close.hs) | {t.t}) + rest
        return out

    def args(self, ts, name):
        depth = 0
        cur, args = [], []
        for i, t in enumerate(ts):
            if t.t == "(":
                depth += 1
                if depth == 1:
                    continue
            elif t.t == ")":
                depth -= 1
                if depth == 0:
                    args.append(cur)
                    return args, ts[i + 1:], t
            elif t.t == "," and depth == 1:
                args.append(cur)
                cur = []
                continue
            cur.append(t)
        raise CppError("unterminated call of " + name)

    def subst(self, body, params, args, hs):
        out = []
        i = 0
        B = body
        glue = False
        while i < len(B):
            t = B[i]
            nxt = B[i + 1] if i + 1 < len(B) else None
            if t.t == "#" and t.k == "op" and params is not None and len(params) and nxt is not None and nxt.t in params:
                s = self.stringize(args[params.index(nxt.t)])
                self.put(out, [s], glue)
                glue = False
                i += 2
                continue
            if t.t == "##":
                glue = True
                i += 1
                continue
            if t.k == "id" and t.t in params:
                a = args[params.index(t.t)]
                if glue or (nxt is not None and nxt.t == "##"):
                    ins = list(a) if a else [Tok("pm", "")]
                else:
                    ins = self.expand(a)
                self.put(out, ins, glue)
            else:
                self.put(out, [t], glue)
            glue = False
            i += 1
        return [x.hide(hs) for x in out if x.k != "pm"]

    def put(self, out, ins, glue):
        if not glue or not out:
            out.extend(ins)
            return
        if not ins:
            return
        l = out.pop()
        out.append(self.paste(l, ins[0]))
        out.extend(ins[1:])

    def paste(self, a, b):
        if a.k == "pm":
            return b
        if b.k == "pm":
            return a
        s = a.t + b.t
        m = RX.match(s)
        if not m or m.end() != len(s):
            raise CppError("paste of %s and %s" % (a.t, b.t))
        return Tok(m.lastgroup, s, a.hs & b.hs, a.sp)

    def stringize(self, a):
        s = ""
        for i, t in enumerate(a):
            if i and t.sp:
                s += " "
            s += t.t if t.k not in ("str", "chr") else t.t.replace("\\", "\\\\").replace('"', '\\"')
        return Tok("str", '"' + s + '"')

    # ---- directives
    def run(self, text):
        self.lines(scan(text))
        self.flush()
        return self.out

    def flush(self):
        self.out.extend(self.expand(self.pend))
        self.pend = []

    pend = []
    stack = None
    dir = ""
    search = None

    def lines(self, lines, top=True):
        if self.stack is None:
            self.stack = []
            self.pend = []
        depth = len(self.stack)
        st = self.stack
        for l in lines:
            live = all(x[0] for x in st)
            if l and l[0].t == "#":
                d = l[1].t if len(l) > 1 else ""
                r = l[2:]
                if d in ("ifdef", "ifndef"):
                    if live and (not r or r[0].k != "id"):
                        raise CppError("#" + d)
                    b = live and ((r[0].t in self.m) == (d == "ifdef"))
                    st.append([b, b, live, False])
                elif d == "if":
                    b = live and self.cond(r)
                    st.append([b, b, live, False])
                elif d in ("elif", "else"):
                    if len(st) <= depth and top or not st:
                        raise CppError("unbalanced #" + d)
                    s = st[-1]
                    if s[3]:
                        raise CppError("#%s after #else" % d)
                    if d == "else":
                        s[0] = s[2] and not s[1]
                        s[1] = True
                        s[3] = True
                    elif s[2] and not s[1]:
                        s[0] = s[1] = self.cond(r)
                    else:
                        s[0] = False
                elif d == "endif":
                    if not st:
                        raise CppError("unbalanced #endif")
                    st.pop()
                elif not live or d == "":
                    pass
                else:
                    self.flush()
                    self.directive(d, r)
                continue
            if live:
                self.pend.extend(l)
        if len(st) != depth:
            raise CppError("unterminated conditional")

    def directive(self, d, r):
        if d == "define":
            if not r or r[0].k != "id":
                raise CppError("#define")
            n = r[0].t
            if len(r) > 1 and r[1].t == "(" and not r[1].sp:
                ps = []
                i = 2
                if r[i].t == ")":
                    i += 1
                else:
                    while True:
                        if r[i].k != "id":
                            raise CppError("parameter")
                        ps.append(r[i].t)
                        i += 1
                        if r[i].t == ")":
                            i += 1
                            break
                        if r[i].t != ",":
                            raise CppError("parameters")
                        i += 1
                body = r[i:]
            else:
                ps, body = None, r[1:]
            if body and (body[0].t == "##" or body[-1].t == "##"):
                raise CppError("## at an end")
            self.m[n] = (ps, body)
        elif d == "undef":
            if not r or r[0].k != "id":
                raise CppError("#undef")
            self.m.pop(r[0].t, None)
        elif d == "include":
            if len(r) == 1 and r[0].k == "str":
                name, d = self.dir + r[0].t[1:-1], self.dir
            elif len(r) > 2 and r[0].t == "<" and r[-1].t == ">":
                if self.search is None:
                    return
                name, d = self.search + "".join(x.t for x in r[1:-1]), self.dir
            else:
                raise CppError("include")
            if name not in self.files:
                raise CppError("no file " + name)
            self.dir = name[:name.rfind("/") + 1]
            self.lines(scan(self.files[name]))
            self.dir = d
        elif d == "error":
            raise CppError("#error")
        elif d == "warning":
            pass
        else:
            raise CppError("directive " + d)

    # ---- #if expressions
    def cond(self, r):
        ts = []
        i = 0
        while i < len(r):
            t = r[i]
            if t.t == "defined":
                if i + 1 < len(r) and r[i + 1].t == "(":
                    n = r[i + 2].t
                    i += 4
                else:
                    n = r[i + 1].t
                    i += 2
                ts.append(Tok("num", "1" if n in self.m else "0"))
            else:
                ts.append(t)
                i += 1
        ts = self.expand(ts)
        return evaluate(ts) != 0


LV = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]


class DivZero(CppError):
    pass


class Undefined(Exception):
    """C leaves the result undefined."""


def evaluate(ts, bits=None):
    """Value of a constant expression; with bits, Undefined where a result does not fit a signed type of that width."""
    p = [0]

    def fit(v, on):
        if bits and on and not -(1 << bits - 1) <= v < 1 << bits - 1:
            raise Undefined()
        return v

    def peek():
        return ts[p[0]].t if p[0] < len(ts) else None

    def prim(on):
        t = ts[p[0]] if p[0] < len(ts) else None
        if t is None:
            raise CppError("#if expression")
        p[0] += 1
        if t.t == "(":
            v = cond(on)
            if peek() != ")":
                raise CppError("parenthesis")
            p[0] += 1
            return v
        if t.t in ("-", "+", "!", "~"):
            v = prim(on)
            return fit({"-": lambda: -v, "+": lambda: v, "!": lambda: int(not v), "~": lambda: ~v}[t.t](), on)
        if t.k == "num":
            return fit(number(t.t), on)
        if t.k == "chr":
            return ord(eval(t.t)) if len(eval(t.t)) == 1 else 0
        if t.k == "id":
            return 0
        raise CppError("#if operand " + t.t)

    def level(i, on):
        if i == len(LV):
            return prim(on)
        v = level(i + 1, on)
        while peek() in LV[i]:
            o = ts[p[0]].t
            p[0] += 1
            w = level(i + 1, on and not (o == "&&" and not v) and not (o == "||" and v))
            v = fit(apply(o, v, w, on), on)
        return v

    def cond(on):
        v = level(0, on)
        if peek() == "?":
            p[0] += 1
            a = cond(on and bool(v))
            if peek() != ":":
                raise CppError("?:")
            p[0] += 1
            b = cond(on and not v)
            return a if v else b
        return v

    v = cond(True)
    if p[0] != len(ts):
        raise CppError("trailing tokens")
    return v


def apply(o, a, b, on=True):
    if o in ("/", "%"):
        if b == 0:
            if on:
                raise DivZero("division by zero")
            return 0
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if o == "/" else a - q * b
    if on and o in ("<<", ">>") and not (a >= 0 and 0 <= b < 31):
        raise Undefined()
    return {"||": lambda: int(bool(a or b)), "&&": lambda: int(bool(a and b)), "|": lambda: a | b, "^": lambda: a ^ b, "&": lambda: a & b,
            "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b),
            ">=": lambda: int(a >= b), "<<": lambda: a << b if 0 <= b < 31 else 0, ">>": lambda: a >> b if 0 <= b < 31 else 0,
            "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[o]()


def number(t):
    m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)[uUlL]*", t)
    if not m:
        raise CppError("number " + t)
    s = m.group(1)
    return int(s, 16) if s[:2] in ("0x", "0X") else int(s, 8) if len(s) > 1 and s[0] == "0" else int(s)
