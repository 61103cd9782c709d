"""POSIX shell text: parser, and symbolic evaluation of the parsed text.

parse(text) gives a command tree; a text that is not well-formed shell (an
unclosed block, an empty compound list, ...) raises ShellSyntax.  World holds the
symbolic values of shell variables and memory cells; Exec evaluates a command
tree in it, one path at a time, under an Oracle that decides branch conditions.
"""
import math
from absint import t_add, t_bin, t_scale, is_int, lin_parts

RESERVED = {"if", "then", "elif", "else", "fi", "while", "until", "do", "done", "case", "esac", "for", "in", "{", "}", "!"}


class ShellSyntax(Exception):
    pass


class Unsupported(Exception):
    """Shell construct the evaluator has no model of."""


# ------------------------------------------------------------------ words
# word = list of parts: ("lit", text) ("esc", ch) ("var", name, mod) ("arith", tree) ("cmd", program) ("dq", parts)

NAMECH = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def is_name_start(c):
    return c == "_" or c.isalpha()


def is_name_char(c):
    return c == "_" or c.isalnum()


class Lexer:
    def __init__(self, s):
        self.s, self.i, self.n = s, 0, len(s)

    def peek(self, k=0):
        return self.s[self.i + k] if self.i + k < self.n else ""

    def skip(self):
        while self.i < self.n:
            c = self.s[self.i]
            if c in " \t":
                self.i += 1
            elif c == "\\" and self.peek(1) == "\n":
                self.i += 2
            elif c == "#":
                while self.i < self.n and self.s[self.i] != "\n":
                    self.i += 1
            else:
                break

    OPS = ("&&", "||", ";;", ";", "&", "|", "\n", "(", ")", "<<", ">>", "<&", ">&", "<", ">")

    def next(self):
        """("op", text) | ("word", parts, raw) | ("eof",)"""
        self.skip()
        if self.i >= self.n:
            return ("eof",)
        for o in self.OPS:
            if self.s.startswith(o, self.i):
                self.i += len(o)
                return ("op", o)
        a = self.i
        parts = self.word(" \t\n;&|()<>")
        if self.s[a:self.i].isdigit() and self.s[self.i:self.i + 1] in ("<", ">"):
            return ("io", int(self.s[a:self.i]))
        return ("word", parts, self.s[a:self.i])

    def word(self, stop):
        parts = []

        def lit(x):
            if parts and parts[-1][0] == "lit":
                parts[-1] = ("lit", parts[-1][1] + x)
            else:
                parts.append(("lit", x))
        while self.i < self.n:
            c = self.s[self.i]
            if c in stop:
                break
            if c == "\\":
                if self.i + 1 >= self.n:
                    raise ShellSyntax("trailing backslash")
                d = self.s[self.i + 1]
                self.i += 2
                if d != "\n":
                    parts.append(("esc", d))
            elif c == "'":
                j = self.s.find("'", self.i + 1)
                if j < 0:
                    raise ShellSyntax("unterminated quote")
                parts.append(("sq", self.s[self.i + 1:j]))
                self.i = j + 1
            elif c == '"':
                self.i += 1
                parts.append(("dq", self.dquote()))
            elif c == "$":
                parts.append(self.dollar())
            elif c == "`":
                raise Unsupported("backquote substitution")
            else:
                lit(c)
                self.i += 1
        return parts

    def dquote(self):
        parts = []
        buf = ""
        while True:
            if self.i >= self.n:
                raise ShellSyntax("unterminated double quote")
            c = self.s[self.i]
            if c == '"':
                self.i += 1
                break
            if c == "\\" and self.peek(1) in '$`"\\\n' and self.peek(1):
                if self.peek(1) != "\n":
                    buf += self.peek(1)
                self.i += 2
            elif c == "`":
                raise ShellSyntax("command substitution inside a string")
            elif c == "$" and (self.peek(1) in "({@*#?$!-" or is_name_char(self.peek(1) or " ")):
                if buf:
                    parts.append(("lit", buf))
                    buf = ""
                parts.append(self.dollar())
            else:
                buf += c
                self.i += 1
        if buf or not parts:
            parts.append(("lit", buf))
        return parts

    def dollar(self):
        s = self.s
        self.i += 1
        if s.startswith("((", self.i):
            self.i += 2
            return ("arith", self.arith())
        if s.startswith("(", self.i):
            self.i += 1
            p = Parser(self)
            body = p.clist((")",))
            p.expect_op(")")
            if p.buf:
                raise ShellSyntax("lookahead after command substitution")
            return ("cmd", body)
        if s.startswith("{", self.i):
            self.i += 1
            length = False
            if self.peek() == "#" and self.peek(1) != "}":
                length = True
                self.i += 1
            a = self.i
            if self.peek().isdigit():
                while self.peek().isdigit():
                    self.i += 1
            elif self.peek() in "@*#?":
                self.i += 1
            else:
                while self.peek() and is_name_char(self.peek()):
                    self.i += 1
            name = s[a:self.i]
            if not name:
                # name composed of expansions (not POSIX)
                raise ShellSyntax("bad parameter expansion")
            if self.peek() == "}":
                self.i += 1
                return ("var", name, ("len",) if length else None)
            for op in (":-", ":=", ":?", ":+", "-", "=", "?", "+", "%%", "%", "##", "#"):
                if s.startswith(op, self.i):
                    self.i += len(op)
                    w = self.word("}")
                    if self.peek() != "}":
                        raise ShellSyntax("unterminated parameter expansion")
                    self.i += 1
                    return ("var", name, (op, w))
            raise ShellSyntax("bad parameter expansion ${%s" % s[a:a + 20])
        c = self.peek()
        if c.isdigit() or (c and c in "@*#?$!-"):
            self.i += 1
            return ("var", c, None)
        a = self.i
        if not c or not is_name_start(c):
            return ("lit", "$")
        while self.peek() and is_name_char(self.peek()):
            self.i += 1
        return ("var", s[a:self.i], None)

    # ---- arithmetic: tokens are operators, numbers and names; names may contain expansions
    AOPS = ("<<=", ">>=", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=",
            "&=", "|=", "^=", "+", "-", "*", "/", "%", "<", ">", "=", "!", "~", "&", "|", "^", "?", ":", ",", "(", ")")

    def arith(self):
        toks = []
        depth = 0
        while True:
            if self.i >= self.n:
                raise ShellSyntax("unterminated arithmetic expansion")
            c = self.s[self.i]
            if c in " \t\n":
                self.i += 1
                continue
            if depth == 0 and self.s.startswith("))", self.i):
                self.i += 2
                break
            if c == "$" or is_name_char(c):
                frags = []
                while self.i < self.n:
                    c = self.s[self.i]
                    if c == "$":
                        frags.append(self.dollar())
                    elif is_name_char(c):
                        a = self.i
                        while self.i < self.n and is_name_char(self.s[self.i]):
                            self.i += 1
                        frags.append(("lit", self.s[a:self.i]))
                    else:
                        break
                toks.append(("w", frags))
                continue
            for o in self.AOPS:
                if self.s.startswith(o, self.i):
                    self.i += len(o)
                    if o == "(":
                        depth += 1
                    elif o == ")":
                        if depth == 0:
                            raise ShellSyntax("unbalanced parenthesis in arithmetic expansion")
                        depth -= 1
                    toks.append(("o", o))
                    break
            else:
                raise ShellSyntax("bad character %r in arithmetic expansion" % c)
        return Arith(toks).top()


class Arith:
    """C precedence, as POSIX requires of arithmetic expansion."""
    LEVELS = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end",)

    def op(self, *ops):
        p = self.peek()
        return p[1] if p[0] == "o" and p[1] in ops else None

    def take(self, *ops):
        o = self.op(*ops)
        if o:
            self.i += 1
        return o

    def top(self):
        if not self.t:
            return ("num", 0)
        e = self.comma()
        if self.i != len(self.t):
            raise ShellSyntax("bad arithmetic expression near %r" % (self.peek(),))
        return e

    def comma(self):
        e = self.assign()
        while self.take(","):
            e = ("bin", ",", e, self.assign())
        return e

    def assign(self):
        l = self.cond()
        o = self.take("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")
        if o:
            if l[0] != "name":
                raise ShellSyntax("assignment to a non-variable in arithmetic expansion")
            return ("asg", o[:-1], l, self.assign())
        return l

    def cond(self):
        c = self.level(0)
        if self.take("?"):
            a = self.comma()
            if not self.take(":"):
                raise ShellSyntax("missing : in arithmetic expression")
            # a ? b : c = d  is not an assignment to the conditional
            b = self.cond()
            return ("cond", c, a, b)
        return c

    def level(self, k):
        if k == len(self.LEVELS):
            return self.unary()
        l = self.level(k + 1)
        while True:
            o = self.take(*self.LEVELS[k])
            if not o:
                return l
            l = ("bin", o, l, self.level(k + 1))

    def unary(self):
        o = self.take("!", "~", "-", "+")
        if o:
            return ("un", o, self.unary())
        o = self.take("++", "--")
        if o:
            l = self.unary()
            if l[0] != "name":
                # "--5", "--(x)": decrement of a non-variable; shells disagree
                raise ShellSyntax("%s applied to a non-variable in arithmetic expansion" % o)
            return ("pre", o[0], l)
        return self.postfix()

    def postfix(self):
        e = self.primary()
        o = self.take("++", "--")
        if o:
            if e[0] != "name":
                raise ShellSyntax("%s applied to a non-variable in arithmetic expansion" % o)
            return ("post", o[0], e)
        return e

    def primary(self):
        if self.take("("):
            e = self.comma()
            if not self.take(")"):
                raise ShellSyntax("missing ) in arithmetic expression")
            return e if e[0] != "name" else ("paren", e)
        p = self.peek()
        if p[0] != "w":
            raise ShellSyntax("bad arithmetic expression near %r" % (p,))
        self.i += 1
        fr = p[1]
        if len(fr) == 1 and fr[0][0] == "lit" and fr[0][1][0].isdigit() or (
                len(fr) == 1 and fr[0][0] == "lit" and NUMCH(fr[0][1][0])):
            return ("num", number(fr[0][1]))
        return ("name", fr)


def NUMCH(c):
    return 0xAC00 <= ord(c) < 0xAD00


def text_value(t):
    """Value of a word that is one literal text: a number, or the text."""
    if is_dec(t):
        return int(t)
    if t and NUMCH(t[-1]) and t[:-1] in ("", "-"):
        v = number(t[-1])
        return v if t[:-1] == "" else t_scale(v, -1)
    return ("s", t)


def number(t):
    if len(t) == 1 and NUMCH(t):
        return ("v", "num.%d" % (ord(t) - 0xAC00))
    if t.lower().startswith("0x"):
        return int(t, 16)
    if len(t) > 1 and t[0] == "0":
        if any(c not in "01234567" for c in t):
            raise ShellSyntax("bad octal constant " + t)
        return int(t, 8)
    if not t.isdigit():
        raise ShellSyntax("bad number " + t)
    return int(t)


# ------------------------------------------------------------------ commands
REDIR = ("<<", ">>", "<", ">", "<&", ">&")


class Parser:
    def __init__(self, lx):
        self.lx = lx
        self.buf = []

    def tok(self):
        if not self.buf:
            self.buf.append(self.lx.next())
        return self.buf[0]

    def adv(self):
        t = self.tok()
        self.buf.pop(0)
        return t

    def plain(self, t):
        """Text of a word made of one unquoted literal, else None."""
        return t[1][0][1] if t[0] == "word" and len(t[1]) == 1 and t[1][0][0] == "lit" else None

    def is_op(self, *ops):
        t = self.tok()
        return t[0] == "op" and t[1] in ops

    def expect_op(self, o):
        if not self.is_op(o):
            raise ShellSyntax("expected %r, found %r" % (o, self.tok()))
        self.adv()

    def expect_word(self, w):
        if self.plain(self.tok()) != w:
            raise ShellSyntax("expected %r, found %r" % (w, self.tok()[1:]))
        self.adv()

    def newlines(self):
        while self.is_op("\n"):
            self.adv()

    def clist(self, ends, words=(), allow_empty=True):
        """Commands up to an operator in `ends` or a reserved word in `words`."""
        out = []
        while True:
            while self.is_op("\n", ";"):
                if self.is_op(";") and not out:
                    raise ShellSyntax("empty command before ;")
                self.adv()
            t = self.tok()
            if t[0] == "eof":
                if "eof" in ends:
                    break
                raise ShellSyntax("unexpected end of text, expected %s" % (words or ends,))
            if t[0] == "op" and t[1] in ends:
                break
            if self.plain(t) in words:
                break
            out.append(self.andor())
            if not (self.is_op("\n", ";") or self.tok()[0] == "eof" or (self.tok()[0] == "op" and self.tok()[1] in ends)):
                raise ShellSyntax("unexpected %r after a command" % (self.tok()[1:],))
            if self.is_op(";"):
                self.adv()
        if not out and not allow_empty:
            raise ShellSyntax("empty block before %s" % (self.tok()[1:],))
        return out

    def andor(self):
        l = self.pipeline()
        while self.is_op("&&", "||"):
            o = self.adv()[1]
            self.newlines()
            l = ("andor", o, l, self.pipeline())
        return l

    def pipeline(self):
        neg = False
        if self.plain(self.tok()) == "!":
            self.adv()
            neg = True
        c = self.command()
        if self.is_op("|"):
            cs = [c]
            while self.is_op("|"):
                self.adv()
                self.newlines()
                cs.append(self.command())
            c = ("pipe", cs)
        return ("not", c) if neg else c

    def command(self):
        t = self.tok()
        w = self.plain(t)
        if w == "if":
            self.adv()
            arms = []
            c = self.clist((), ("then",), False)
            self.expect_word("then")
            b = self.clist((), ("elif", "else", "fi"), False)
            arms.append((c, b))
            els = []
            while True:
                w = self.plain(self.tok())
                self.adv()
                if w == "fi":
                    break
                if w == "else":
                    els = self.clist((), ("fi",), False)
                    self.expect_word("fi")
                    break
                c = self.clist((), ("then",), False)
                self.expect_word("then")
                arms.append((c, self.clist((), ("elif", "else", "fi"), False)))
            return self.redir(("if", arms, els))
        if w in ("while", "until"):
            self.adv()
            c = self.clist((), ("do",), False)
            self.expect_word("do")
            b = self.clist((), ("done",), False)
            self.expect_word("done")
            return self.redir(("while", c, b) if w == "while" else ("while", [("not", ("group", c))], b))
        if w == "for":
            self.adv()
            v = self.plain(self.adv())
            ws = None
            self.newlines()
            if self.plain(self.tok()) == "in":
                self.adv()
                ws = []
                while self.tok()[0] == "word":
                    ws.append(self.adv()[1])
            while self.is_op("\n", ";"):
                self.adv()
            self.expect_word("do")
            b = self.clist((), ("done",), False)
            self.expect_word("done")
            return self.redir(("for", v, ws, b))
        if w == "case":
            self.adv()
            if self.tok()[0] != "word":
                raise ShellSyntax("case without a word")
            subj = self.adv()[1]
            self.newlines()
            self.expect_word("in")
            arms = []
            while True:
                self.newlines()
                if self.plain(self.tok()) == "esac":
                    self.adv()
                    break
                if self.is_op("("):
                    self.adv()
                pats = []
                while True:
                    if self.tok()[0] != "word":
                        raise ShellSyntax("bad case pattern %r" % (self.tok(),))
                    pats.append(self.adv()[1])
                    if self.is_op("|"):
                        self.adv()
                        continue
                    break
                self.expect_op(")")
                body = self.clist((";;",), ("esac",))
                arms.append((pats, body))
                if self.is_op(";;"):
                    self.adv()
            return self.redir(("case", subj, arms))
        if w == "{":
            self.adv()
            b = self.clist((), ("}",), False)
            self.expect_word("}")
            return self.redir(("group", b))
        if self.is_op("("):
            self.adv()
            b = self.clist((")",), (), False)
            self.expect_op(")")
            return self.redir(("subshell", b))
        if w in RESERVED:
            raise ShellSyntax("unexpected %r" % w)
        if t[0] != "word":
            raise ShellSyntax("expected a command, found %r" % (t[1:],))
        # simple command or function definition
        assigns, words, redirs = [], [], []
        while True:
            t = self.tok()
            if t[0] == "io" or t[0] == "op" and t[1] in REDIR:
                redirs.append(self.one_redir())
                continue
            if t[0] != "word":
                break
            if not words:
                a = self.assignment(t)
                if a:
                    assigns.append(a)
                    self.adv()
                    continue
            words.append(t[1])
            self.adv()
            if len(words) == 1 and not assigns and self.is_op("("):
                name = self.plain(t)
                self.adv()
                self.expect_op(")")
                self.newlines()
                return ("fun", name, self.command())
        if not words and not assigns and not redirs:
            raise ShellSyntax("empty command")
        return ("simple", assigns, words, redirs)

    def assignment(self, t):
        """NAME=value, where NAME may only consist of literal name characters."""
        p = t[1]
        if p and p[0][0] == "lit" and "=" in p[0][1]:
            n, rest = p[0][1].split("=", 1)
            if n and is_name_start(n[0]) and all(is_name_char(c) for c in n):
                return (n, ([("lit", rest)] if rest else []) + list(p[1:]))
        return None

    def one_redir(self):
        """(operator, target) or (operator, target, descriptor)."""
        fd = (self.adv()[1],) if self.tok()[0] == "io" else ()
        if not (self.tok()[0] == "op" and self.tok()[1] in REDIR):
            raise ShellSyntax("redirection without an operator")
        o = self.adv()[1]
        if self.tok()[0] != "word":
            raise ShellSyntax("redirection without a target")
        return (o, self.adv()[1]) + fd

    def redir(self, c):
        rs = []
        while self.tok()[0] == "io" or self.tok()[0] == "op" and self.tok()[1] in REDIR:
            rs.append(self.one_redir())
        return ("redir", c, rs) if rs else c


def parse(text):
    p = Parser(Lexer(text))
    return p.clist(("eof",))


# ------------------------------------------------------------------ symbolic evaluation
class Cutoff(Exception):
    """The decision budget of a path is used up."""


class Leave(Exception):
    """break / continue / return / exit."""

    def __init__(self, kind, n=0):
        self.kind, self.n = kind, n


REL = {"==", "!=", "<", ">", "<=", ">="}


def rel(op, a, b):
    """Canonical comparison term: only == and < remain, negations as ("o","!",t)."""
    if is_int(a) and is_int(b):
        return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
    if op == ">":
        return rel("<", b, a)
    if op == "<=":
        return lnot(rel("<", b, a))
    if op == ">=":
        return lnot(rel("<", a, b))
    if op == "!=":
        return lnot(rel("==", a, b))
    if op == "==":
        # comparison of a truth value with 0 or 1
        for x, y in ((a, b), (b, a)):
            if is_bool(x) and is_int(y):
                return lnot(x) if y == 0 else x if y == 1 else 0
        if a == b:
            return 1
        d = t_add(a, b, -1)
        if is_int(d):
            return int(d == 0)
        e = t_scale(d, -1)
        return ("o", "==", min(d, e, key=repr), 0)
    if op == "<":
        d = t_add(a, b, -1)
        if is_int(d):
            return int(d < 0)
        return ("o", "<", a, b)
    raise KeyError(op)


def is_bool(t):
    return isinstance(t, tuple) and t[0] == "o" and t[1] in ("==", "<", "!")


def lnot(t):
    if is_int(t):
        return int(t == 0)
    if is_bool(t):
        return t[2] if t[1] == "!" else ("o", "!", t)
    return rel("==", t, 0)


def arith(op, a, b):
    if op in REL:
        return rel(op, a, b)
    if op == "~":
        return t_add(-1, a, -1)
    if op in ASSOC and not (is_int(a) and is_int(b)):
        return chain(op, a, b)
    return t_bin(op, a, b)


ASSOC = {"*": 1, "&": -1, "|": 0, "^": 0}


def chain(op, a, b):
    """Canonical term of a chain of an associative and commutative operator."""
    k = ASSOC[op]
    fs = []
    for x in (a, b):
        if op == "*" and isinstance(x, tuple) and x[0] == "lin" and x[1] == 0 and len(x[2]) == 1:
            k *= x[2][0][1]
            x = x[2][0][0]
        elif op == "*" and isinstance(x, tuple) and x[0] == "lin":
            c = math.gcd(x[1], *[v for _, v in x[2]])
            if x[2][0][1] < 0:
                c = -c
            if c != 1:
                k *= c
                x = ("lin", x[1] // c, tuple((a, v // c) for a, v in x[2]))
        for y in (x[2:] if isinstance(x, tuple) and x[0] == "o" and x[1] == op else (x,)):
            if is_int(y):
                k = t_bin(op, k, y)
            else:
                fs.append(y)
    fs.sort(key=repr)
    if k == ASSOC[op] or op == "*":
        r = fs[0] if len(fs) == 1 else ("o", op) + tuple(fs)
        return t_scale(r, k) if op == "*" else r
    if op == "&" and k == 0:
        return 0
    return ("o", op, k) + tuple(fs)


class Oracle:
    """Decides branch conditions along one path."""

    def __init__(self, script=(), known=None, budget=10):
        self.script = list(script)
        self.taken = []
        self.known = dict(known or {})
        self.budget = budget

    def decide(self, t):
        neg = False
        if not is_bool(t):
            t = lnot(lnot(t))
        while isinstance(t, tuple) and t[0] == "o" and t[1] == "!":
            t = t[2]
            neg = not neg
        if is_int(t):
            return bool(t) != neg
        if t not in self.known:
            k = len(self.taken)
            if k >= self.budget:
                raise Cutoff()
            d = self.script[k] if k < len(self.script) else True
            self.taken.append(d)
            self.known[t] = d
        return self.known[t] != neg

    @staticmethod
    def next_script(taken):
        """Next script in depth-first order, or None."""
        s = list(taken)
        while s and not s[-1]:
            s.pop()
        if not s:
            return None
        s[-1] = False
        return s


def split_name(n):
    """(prefix, index) of a variable name; the index is the canonical decimal number it ends with."""
    k = len(n)
    while k > 1 and n[k - 1] in "0123456789":
        k -= 1
    while k < len(n) and n[k] == "0" and k + 1 < len(n):
        k += 1
    return (n[:k], int(n[k:])) if k < len(n) else (n, None)


class World:
    """Variables, memory cells, positional parameters and the observable events so far."""

    def __init__(self, oracle, declared=()):
        self.o = oracle
        self.vars = {}           # (prefix, None|int) -> value
        self.dyn = {}            # prefix -> [(index term, value)] for prefixes indexed by terms
        self.dyn_prefixes = {"_", "__"}
        self.ver = 0
        self.declared = set(declared)     # globals with an unknown initial value
        self.readonly = set()
        self.events = []
        self.ncalls = 0
        self.gmod = {}

    def is_global(self, key):
        return key[0][0] == "_" and key[0][:2] != "__"

    def event(self, *ev):
        self.events.append(ev)

    def snap(self):
        return (tuple(sorted(((k, v) for k, v in self.gmod.items()), key=repr)), tuple(self.dyn.get("_", ())))

    def read(self, key):
        p, i = key
        if i is not None and (p in self.dyn_prefixes or not is_int(i)):
            if is_int(i) and i < 0:
                raise ShellSyntax("a variable name contains the negative number %d" % i)
            ss = self.dyn.get(p, [])
            for k in range(len(ss) - 1, -1, -1):
                d = t_add(ss[k][0], i, -1)
                if is_int(d):
                    if d == 0:
                        return ss[k][1]
                    continue
                return ("o", "sel", p, self.ver, tuple(ss), i)
            return ("o", "cell", p, self.ver if p == "_" else 0, i)
        if key in self.vars:
            return self.vars[key]
        if key in self.declared:
            return ("v", "%s@%d" % (key[0] + ("" if i is None else str(i)), self.ver))
        self.event("unset", key)
        return 0

    def write(self, key, val):
        p, i = key
        if key in self.readonly:
            self.event("write to readonly", key)
            return
        if i is not None and (p in self.dyn_prefixes or not is_int(i)):
            if is_int(i) and i < 0:
                raise ShellSyntax("a variable name contains the negative number %d" % i)
            ss = self.dyn.setdefault(p, [])
            # a store to an address already stored supersedes it unless something in between may alias
            for k in range(len(ss) - 1, -1, -1):
                d = t_add(ss[k][0], i, -1)
                if not is_int(d):
                    break
                if d == 0:
                    del ss[k]
                    break
            ss.append((i, val))
            return
        self.vars[key] = val
        if self.is_global(key):
            self.gmod[key] = val

    def havoc(self):
        """An unknown function ran: globals and memory are unknown."""
        self.ver += 1
        for k in self.gmod:
            if k not in self.readonly:
                self.vars.pop(k, None)
                self.declared.add(k)
        self.gmod = {}
        self.dyn.pop("_", None)

    def call(self, f, args):
        self.event("call", f, tuple(args), self.snap())
        self.havoc()
        self.ncalls += 1
        return ("v", "ret%d" % self.ncalls)


class Exec:
    """Evaluates commands in a World."""

    def __init__(self, w, funs=None, builtins=None, steps=20000):
        self.w = w
        self.funs = dict(funs or {})
        self.intr = dict(builtins or {})     # name -> fn(exec, words) -> status
        self.args = []                       # positional parameters of the running function
        self.steps = steps
        self.loops = 0

    # ---- words
    def pieces(self, parts, quoted=False):
        """Expansion of a word to a list of fields, each a list of str | ("d",term) | ("ref",key)."""
        fields = [[]]
        some = False
        for p in parts:
            k = p[0]
            if k in ("lit", "sq"):
                fields[-1].append(p[1])
                some = some or k == "sq" or p[1] != ""
            elif k == "esc":
                fields[-1].append(p[1])
                some = True
            elif k == "arith":
                fields[-1].append(("d", self.arith(p[1])))
                some = True
            elif k == "dq":
                if p[1] == [("var", "@", None)]:
                    for n, a in enumerate(self.args):
                        if n:
                            fields.append([])
                        fields[-1].extend(self.as_pieces(a))
                        some = True
                    continue
                f = self.pieces(p[1], True)
                if len(f) > 1:
                    raise Unsupported("several fields in a quoted word")
                fields[-1].extend(f[0] if f else [])
                some = True
            elif k == "var" and p[1] == "@" and p[2] is None and not quoted:
                for a in self.args:
                    ps = self.as_pieces(a)
                    if not ps:
                        continue
                    if any(isinstance(x, str) and any(c in " \t\n*?[" for c in x) for x in ps):
                        raise ShellSyntax("unquoted expansion of a value that is not a number")
                    if some:
                        fields.append([])
                    fields[-1].extend(ps)
                    some = True
            elif k == "var":
                v = self.param(p[1], p[2], quoted)
                ps = self.as_pieces(v)
                if ps and not quoted:
                    for x in ps:
                        if isinstance(x, str) and any(c in " \t\n*?[" for c in x):
                            raise ShellSyntax("unquoted expansion of a value that is not a number")
                fields[-1].extend(ps)
                some = some or bool(ps)
            elif k == "cmd":
                h = self.intr.get("$(")
                if h is None:
                    raise Unsupported("command substitution")
                fields[-1].extend(self.as_pieces(h(self, p[1])))
                some = True
            else:
                raise Unsupported(k)
        if not some and not quoted:
            return []
        return [merge(f) for f in fields]

    def as_pieces(self, v):
        if is_int(v):
            return [str(v)]
        if v[0] == "s":
            return [v[1]] if v[1] else []
        if v[0] == "ref":
            return [v]
        if v[0] == "mix":
            return list(v[1])
        return [("d", v)]

    def param(self, name, mod, quoted):
        if name.isdigit():
            n = int(name)
            v = self.args[n - 1] if 1 <= n <= len(self.args) else None
        elif name == "#":
            return len(self.args)
        elif name == "?":
            raise Unsupported("$?")
        elif name == "@":
            if len(self.args) == 1:
                return self.args[0]
            raise Unsupported("unquoted $@")
        else:
            key = split_name(name)
            v = self.w.read(key) if not (mod and mod[0] in (":-", "-") and key not in self.w.vars) else None
        if mod is None:
            if v is None:
                self.w.event("unset", name)
                return 0
            return v
        if mod[0] in ("-", ":-"):
            if v is None or (mod[0] == ":-" and v == ("s", "")):
                f = self.pieces(mod[1], True)
                return self.value(f[0] if f else [])
            return v
        raise Unsupported("${%s%s}" % (name, mod[0]))

    def value(self, ps):
        ps = merge(ps)
        if not ps:
            return ("s", "")
        if len(ps) == 1:
            if isinstance(ps[0], tuple):
                return ps[0][1] if ps[0][0] == "d" else ps[0]
            return text_value(ps[0])
        return ("mix", tuple(ps))

    def word1(self, parts):
        f = self.pieces(parts)
        if len(f) != 1:
            raise ShellSyntax("a word expands to %d fields" % len(f))
        return f[0]

    # ---- arithmetic
    def number(self, v, what):
        if is_int(v):
            return v
        if v[0] == "s":
            t = v[1]
            if t == "":
                return 0
            neg = t[0] == "-"
            try:
                n = number(t[1:] if neg else t)
            except ShellSyntax:
                raise ShellSyntax("%s used in arithmetic holds the text %r" % (what, t))
            return t_scale(n, -1) if neg else n
        if v[0] in ("mix", "ref"):
            raise ShellSyntax("%s used in arithmetic does not hold a number" % what)
        return v

    def key(self, frags):
        """("key", k) of an lvalue or ("val", t)."""
        ps = []
        for f in frags:
            if f[0] == "lit":
                ps.append(f[1])
            elif f[0] == "arith":
                ps.append(("d", self.arith(f[1])))
            elif f[0] == "var":
                ps.extend(self.as_pieces(self.param(f[1], f[2], True)))
            else:
                raise Unsupported("expansion in an arithmetic name")
        ps = merge(ps)
        if len(ps) == 1:
            p = ps[0]
            if isinstance(p, str):
                if p and (is_dec(p) or p[0].isdigit()):
                    return ("val", self.number(("s", p), "literal"))
                if not p or not all(is_name_char(c) for c in p):
                    raise ShellSyntax("bad variable name %r in arithmetic" % p)
                return ("key", split_name(p))
            return ("val", p[1]) if p[0] == "d" else ("key", p[1])
        if len(ps) == 2 and isinstance(ps[0], str) and isinstance(ps[1], tuple) and ps[1][0] == "d" \
                and is_name_start(ps[0][0]) and all(is_name_char(c) for c in ps[0]):
            return ("key", (ps[0], ps[1][1]))
        raise ShellSyntax("an arithmetic operand is made of %r" % (ps,))

    def lv(self, e):
        if e[0] == "paren":
            return self.lv(e[1])
        k = self.key(e[1])
        if k[0] != "key":
            raise ShellSyntax("assignment to a value in arithmetic")
        return k[1]

    def arith(self, e):
        k = e[0]
        w = self.w
        if k == "num":
            return e[1]
        if k == "paren":
            return self.arith(e[1])
        if k == "name":
            r = self.key(e[1])
            return r[1] if r[0] == "val" else self.number(w.read(r[1]), r[1][0])
        if k == "un":
            if e[1] in "-+" and e[2][0] == "name":
                r = self.key(e[2][1])
                if r[0] == "val":
                    # the text of a possibly negative number follows the sign
                    if not is_int(r[1]) or r[1] < 0:
                        raise ShellSyntax("%s is followed by the text of a number that may be negative" % e[1])
            a = self.arith(e[2])
            return {"-": lambda: t_scale(a, -1), "+": lambda: a, "!": lambda: lnot(a), "~": lambda: arith("~", a, 0)}[e[1]]()
        if k == "bin":
            o = e[1]
            if o == "&&":
                return int(w.o.decide(self.arith(e[2])) and w.o.decide(self.arith(e[3])))
            if o == "||":
                return int(w.o.decide(self.arith(e[2])) or w.o.decide(self.arith(e[3])))
            a = self.arith(e[2])
            b = self.arith(e[3])
            return b if o == "," else arith(o, a, b)
        if k == "cond":
            return self.arith(e[2] if w.o.decide(self.arith(e[1])) else e[3])
        if k == "asg":
            key = self.lv(e[2])
            v = self.arith(e[3])
            if e[1]:
                v = arith(e[1], self.number(w.read(key), key[0]), v)
            w.write(key, v)
            return v
        if k in ("pre", "post"):
            key = self.lv(e[2])
            o = self.number(w.read(key), key[0])
            n = t_add(o, 1, 1 if e[1] == "+" else -1)
            w.write(key, n)
            return n if k == "pre" else o
        raise Unsupported(k)

    # ---- commands
    def run(self, cmds, tested=False):
        st = True
        for c in cmds:
            self.steps -= 1
            if self.steps < 0:
                raise Cutoff()
            st = self.cmd(c, tested)
        return st

    def fail(self, st, tested):
        if not st and not tested:
            self.w.event("stopped by set -e")
            raise Leave("exit")
        return st

    def cond(self, cs):
        """A list whose status is tested."""
        return self.run(cs, True)

    def cmd(self, c, tested=False):
        k = c[0]
        if k == "simple":
            return self.fail(self.simple(c), tested)
        if k == "andor":
            l = self.cmd(c[2], True)
            if (c[1] == "&&") == l:
                return self.cmd(c[3], tested)
            return l
        if k == "not":
            return not self.cmd(c[1], True)
        if k == "if":
            for cs, body in c[1]:
                if self.cond(cs):
                    return self.run(body, tested)
            return self.run(c[2], tested) if c[2] else True
        if k == "while":
            self.loops += 1
            try:
                while True:
                    self.steps -= 1
                    if self.steps < 0:
                        raise Cutoff()
                    try:
                        if not self.cond(c[1]):
                            break
                        self.run(c[2], tested)
                    except Leave as l:
                        if l.kind == "break":
                            if l.n > 1 and self.loops > 1:
                                l.n -= 1
                                raise
                            break
                        if l.kind == "continue":
                            if l.n > 1 and self.loops > 1:
                                l.n -= 1
                                raise
                            continue
                        raise
            finally:
                self.loops -= 1
            return True
        if k == "case":
            s = self.word1(c[1])
            for pats, body in c[2]:
                for p in pats:
                    if self.match(s, p):
                        return self.run(body, tested) if body else True
            return True
        if k == "group":
            return self.run(c[1], tested)
        if k == "fun":
            self.funs[c[1]] = c[2]
            return True
        raise Unsupported(k)

    def match(self, subject, pat):
        if len(pat) == 1 and pat[0] == ("lit", "*"):
            return True
        if any(p[0] == "lit" and any(ch in "*?[" for ch in p[1]) for p in pat):
            raise Unsupported("case pattern")
        f = self.pieces(pat)
        a, b = self.value(subject), self.value(f[0] if f else [])
        return self.text_equal(a, b)

    def text_equal(self, a, b):
        ta = a[0] if isinstance(a, tuple) else "n"
        tb = b[0] if isinstance(b, tuple) else "n"
        if ta == "s" and tb == "s":
            return a[1] == b[1]
        if "mix" in (ta, tb) or "ref" in (ta, tb):
            raise ShellSyntax("comparison of texts that are not numbers")
        if ta == "s" or tb == "s":
            s = a if ta == "s" else b
            o = b if ta == "s" else a
            if is_int(o):
                return str(o) == s[1]
            # a number never has this text
            self.w.event("text comparison with", s[1])
            return False
        return self.w.o.decide(rel("==", a, b))

    def simple(self, c):
        assigns, words, redirs = c[1], c[2], c[3]
        fields = []
        for x in words:
            fields.extend(self.pieces(x))
        for n, parts in assigns:
            f = self.pieces(parts, True)
            self.w.write(split_name(n), self.value(f[0] if f else []))
        if not fields:
            if redirs:
                raise Unsupported("redirection without a command")
            return True
        if assigns:
            raise Unsupported("assignment before a command")
        name = fields[0]
        if len(name) != 1 or not isinstance(name[0], str):
            raise ShellSyntax("the command name is %r" % (name,))
        name = name[0]
        args = fields[1:]
        if name in self.intr:
            return self.intr[name](self, args, redirs)
        if redirs:
            raise Unsupported("redirection")
        if name == ":":
            return True
        if name == "[":
            if not args or args[-1] != ["]"]:
                raise ShellSyntax("[ without ]")
            return self.test(args[:-1])
        if name in ("break", "continue"):
            n = self.intarg(args, 1)
            if self.loops == 0:
                self.w.event(name + " outside of a loop")
                return True
            raise Leave(name, min(n, self.loops))
        if name == "return":
            raise Leave("return")
        if name == "exit":
            self.w.event("exit", self.value(args[0]) if args else 0, self.w.snap())
            raise Leave("exit")
        if name == "shift":
            n = self.intarg(args, 1)
            if n > len(self.args):
                self.w.event("shift beyond the last parameter")
                raise Leave("exit")
            del self.args[:n]
            return True
        if name == "readonly":
            for a in args:
                t = a[0] if isinstance(a[0], str) else ""
                if "=" not in t:
                    raise Unsupported("readonly without a value")
                n, r = t.split("=", 1)
                key = split_name(n)
                if key in self.w.readonly:
                    self.w.event("constant defined twice", n)
                self.w.write(key, self.value(([r] if r else []) + a[1:]))
                self.w.gmod.pop(key, None)
                self.w.readonly.add(key)
            return True
        if name == "set":
            vs = [self.value(a) for a in args]
            if all(isinstance(v, tuple) and v[0] == "s" and v[1][:1] == "-" for v in vs):
                if not vs:
                    self.w.event("set without operands")
                return True
            if not (isinstance(vs[0], tuple) and vs[0][0] == "ref") and not (is_int(vs[0]) and vs[0] >= 0):
                v0 = self.as_ref(vs[0])
                if not (isinstance(v0, tuple) and v0[0] == "ref"):
                    raise ShellSyntax("the first operand of set may be taken for an option")
            self.args = [self.as_ref(v) for v in vs]
            return True
        if name in self.funs:
            return self.callf(name, [self.value(a) for a in args])
        self.w.event("unknown command", name)
        return True

    def intarg(self, args, default):
        if not args:
            return default
        v = self.value(args[0])
        if not is_int(v):
            raise Unsupported("operand is not a constant")
        return v

    def callf(self, name, vals):
        """Run a shell function; reference operands are passed as text, i.e. as references."""
        save, self.args = self.args, [self.as_ref(v) for v in vals]
        loops, self.loops = self.loops, 0
        try:
            self.cmd(self.funs[name], False)
        except Leave as l:
            if l.kind == "exit":
                raise
        finally:
            self.args = save
            self.loops = loops
        return True

    def as_ref(self, v):
        """A parameter whose text is a variable name acts as a reference."""
        if isinstance(v, tuple) and v[0] == "s" and v[1] and is_name_start(v[1][0]) and all(is_name_char(c) for c in v[1]):
            return ("ref", split_name(v[1]))
        if isinstance(v, tuple) and v[0] == "mix" and len(v[1]) == 2 and isinstance(v[1][0], str) and v[1][1][0] == "d":
            return ("ref", (v[1][0], v[1][1][1]))
        return v

    def dest(self, ps):
        """The variable designated by the text of a word."""
        r = self.as_ref(self.value(ps))
        if isinstance(r, tuple) and r[0] == "ref":
            return r[1]
        raise ShellSyntax("a destination is not the name of a variable: %r" % (ps,))

    def test(self, a):
        def word(k):
            return self.value(a[k])
        ops = [x[0] if len(x) == 1 and isinstance(x[0], str) else None for x in a]
        if len(a) == 3 and ops[1] in ("=", "!="):
            r = self.text_equal(word(0), word(2))
            return r if ops[1] == "=" else not r
        if len(a) == 3 and ops[1] in ("-eq", "-ne", "-lt", "-le", "-gt", "-ge"):
            o = {"-eq": "==", "-ne": "!=", "-lt": "<", "-le": "<=", "-gt": ">", "-ge": ">="}[ops[1]]
            x, y = self.testnum(word(0)), self.testnum(word(2))
            return self.w.o.decide(rel(o, x, y))
        raise Unsupported("test %r" % (a,))

    def testnum(self, v):
        if is_int(v):
            return v
        if v[0] in ("s", "mix", "ref"):
            raise ShellSyntax("numeric test of the text %r" % (v,))
        return v


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, tuple) and p[0] == "d" and is_int(p[1]):
            p = str(p[1])
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def is_dec(t):
    """Canonical decimal text."""
    u = t[1:] if t[:1] == "-" else t
    return u.isdigit() and u.isascii() and (u == "0" and t == "0" or u[0] != "0")
