"""Front end: preprocess /repo sources for one configuration and parse them.

Nothing here executes pnut.  `gcc -E` is used purely as a C preprocessor (with
stub libc headers so that the translation unit holds only pnut's own code) and
pycparser builds the syntax tree.
"""
import os, subprocess, hashlib, sys
from pycparser import c_parser, c_ast

REPO = os.environ.get("PNUT_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
FAKE = os.path.join(HERE, "fakeinc")


class Broken(Exception):
    """The analysis cannot give an answer (vanished anchor, budget, ...)."""


CONFIGS = {
    "sh": ["-Dsh", "-DRT_NO_INIT_GLOBALS"],
    "sh-fast": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DSH_SAVE_VARS_WITH_SET", "-DOPTIMIZE_CONSTANT_PARAM"],
    "sh-release": ["-DRELEASE_PNUT_SH", "-DRT_NO_INIT_GLOBALS"],
    "sh-safe": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DSAFE_MODE"],
    "sh-init": ["-Dsh"],
    "sh-compact": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DRT_COMPACT"],
    "sh-inline": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DSH_INLINE_CHAR_LITERAL", "-DOPTIMIZE_LONG_LINES", "-DRT_FREE_UNSETS_VARS_NOT"],
    "sh-noprintf": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DSH_AVOID_PRINTF_USE_NOT"],
    "i386": ["-Dtarget_i386_linux"],
    "x64": ["-Dtarget_x86_64_linux"],
    "mac": ["-Dtarget_x86_64_mac"],
    "i386-release": ["-DRELEASE_PNUT_i386_linux"],
    "x64-release": ["-DRELEASE_PNUT_x86_64_linux"],
    "mac-release": ["-DRELEASE_PNUT_x86_64_mac"],
    "i386-safe": ["-Dtarget_i386_linux", "-DSAFE_MODE"],
    "x64-safe": ["-Dtarget_x86_64_linux", "-DSAFE_MODE"],
}


def preprocess(flags, source="pnut.c"):
    p = subprocess.run(["gcc", "-E", "-nostdinc", "-I" + FAKE] + list(flags) + [source],
                       cwd=REPO, capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken("preprocessing %s failed: %s" % (source, p.stderr[:400]))
    return p.stdout


class Unit:
    """One configuration of pnut: functions, globals, enum constants."""

    def __init__(self, name, flags, source="pnut.c"):
        self.name = name
        self.flags = flags
        text = preprocess(flags, source)
        self.digest = hashlib.sha256(text.encode()).hexdigest()[:16]
        self.text = text
        try:
            self.ast = c_parser.CParser().parse(text, source)
        except Exception as e:  # noqa
            raise Broken("parse error in %s [%s]: %s" % (source, name, e))
        self.funcs = {}
        self.globals = {}      # name -> Decl
        self.consts = {}       # enum constants and const globals
        self.typedefs = {}
        self.structs = {}
        self._collect()
        self._callgraph()

    # ---- collection
    def _collect(self):
        for ext in self.ast.ext:
            if isinstance(ext, c_ast.FuncDef):
                self.funcs[ext.decl.name] = ext
            elif isinstance(ext, c_ast.Typedef):
                self.typedefs[ext.name] = ext
                self._enums_in(ext)
            elif isinstance(ext, c_ast.Decl):
                self._enums_in(ext)
                if isinstance(ext.type, c_ast.FuncDecl) or ext.name is None:
                    continue
                if ext.name not in self.globals or ext.init is not None:
                    self.globals[ext.name] = ext
                if "const" in (ext.quals or []) and ext.init is not None:
                    v = self.const_eval(ext.init)
                    if v is not None:
                        self.consts[ext.name] = v

    def _enums_in(self, node):
        stack = [node]
        while stack:
            n = stack.pop()
            if isinstance(n, c_ast.Enum) and n.values is not None:
                nxt = 0
                for e in n.values.enumerators:
                    if e.value is not None:
                        nxt = self.const_eval(e.value)
                    self.consts[e.name] = nxt
                    nxt += 1
            if isinstance(n, c_ast.Struct) and n.decls:
                self.structs[n.name] = n
            for c in n:
                if not isinstance(c, c_ast.FuncDef):
                    stack.append(c)

    def const_eval(self, e):
        """Constant folding of a C expression; None when not constant."""
        if isinstance(e, c_ast.Constant):
            return parse_const(e)
        if isinstance(e, c_ast.ID):
            return self.consts.get(e.name)
        if isinstance(e, c_ast.Cast):
            return self.const_eval(e.expr)
        if isinstance(e, c_ast.UnaryOp):
            v = self.const_eval(e.expr) if e.op != "sizeof" else None
            if not isinstance(v, int):
                return None
            return {"-": lambda: -v, "+": lambda: v, "~": lambda: ~v, "!": lambda: int(not v)}.get(e.op, lambda: None)()
        if isinstance(e, c_ast.BinaryOp):
            a, b = self.const_eval(e.left), self.const_eval(e.right)
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            return fold(e.op, a, b)
        if isinstance(e, c_ast.TernaryOp):
            c = self.const_eval(e.cond)
            if not isinstance(c, int):
                return None
            return self.const_eval(e.iftrue if c else e.iffalse)
        return None

    # ---- call graph / side effects
    def _callgraph(self):
        self.calls = {}
        self.callsites = {}
        self.direct_mods = {}
        self.direct_mem = {}
        for name, f in self.funcs.items():
            cs, mods, mem = set(), set(), False
            locs = local_names(f)
            for n in walk(f.body):
                if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID):
                    cs.add(n.name.name)
                    self.callsites.setdefault(n.name.name, []).append((name, n))
                tgt = None
                if isinstance(n, c_ast.Assignment):
                    tgt = n.lvalue
                elif isinstance(n, c_ast.UnaryOp) and n.op in ("++", "--", "p++", "p--"):
                    tgt = n.expr
                if tgt is not None:
                    while isinstance(tgt, c_ast.Cast):
                        tgt = tgt.expr
                    if isinstance(tgt, c_ast.ID):
                        if tgt.name not in locs:
                            mods.add(tgt.name)
                    else:
                        mem = True
            self.calls[name] = cs
            self.direct_mods[name] = mods
            self.direct_mem[name] = mem
        # transitive
        self.mods = {k: set(v) for k, v in self.direct_mods.items()}
        self.mem = dict(self.direct_mem)
        self.reach = {k: set(v) for k, v in self.calls.items()}
        changed = True
        while changed:
            changed = False
            for f in self.funcs:
                for c in self.calls[f]:
                    if c in self.funcs:
                        if not self.mods[c] <= self.mods[f]:
                            self.mods[f] |= self.mods[c]; changed = True
                        if self.mem[c] and not self.mem[f]:
                            self.mem[f] = True; changed = True
                        if not self.reach[c] <= self.reach[f]:
                            self.reach[f] |= self.reach[c]; changed = True
        self._noreturn()

    def _noreturn(self):
        """Functions that never return normally (every path reaches exit())."""
        nr = {"exit", "_exit", "abort"}
        changed = True
        while changed:
            changed = False
            for name, f in self.funcs.items():
                if name not in nr and not may_complete(f.body, nr):
                    nr.add(name); changed = True
        self.noreturn = nr

    def require(self, *names):
        for n in names:
            if n not in self.funcs:
                raise Broken("anchor function %s() not found in configuration %s" % (n, self.name))

    def require_const(self, *names):
        for n in names:
            if n not in self.consts:
                raise Broken("anchor constant %s not found in configuration %s" % (n, self.name))


def may_complete(node, nr):
    """Can control fall out of / return from this statement?"""
    if node is None:
        return True
    t = type(node)
    if t is c_ast.Compound:
        for s in node.block_items or []:
            if has_return(s):
                return True
            if not may_complete(s, nr):
                return False
        return True
    if t is c_ast.FuncCall:
        return not (isinstance(node.name, c_ast.ID) and node.name.name in nr)
    if t is c_ast.If:
        return may_complete(node.iftrue, nr) or may_complete(node.iffalse, nr)
    if t is c_ast.Return:
        return True
    return True


def has_return(node):
    return any(isinstance(n, c_ast.Return) for n in walk(node))


def walk(node):
    if node is None:
        return
    stack = [node]
    while stack:
        n = stack.pop()
        yield n
        stack.extend(reversed(list(n)))


def local_names(f):
    s = set()
    args = f.decl.type.args
    for p in (args.params if args else []):
        if getattr(p, "name", None):
            s.add(p.name)
    for n in walk(f.body):
        if isinstance(n, c_ast.Decl) and n.name:
            s.add(n.name)
    return s


def params(f):
    args = f.decl.type.args
    return [p.name for p in (args.params if args else []) if getattr(p, "name", None)]


_ESC = {"n": 10, "t": 9, "r": 13, "0": 0, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63}


def unescape(body):
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c == "\\":
            i += 1
            c = body[i]
            if c in "01234567":
                j = i
                while j < len(body) and j < i + 3 and body[j] in "01234567":
                    j += 1
                out.append(chr(int(body[i:j], 8) & 255)); i = j
                continue
            if c == "x":
                j = i + 1
                while j < len(body) and body[j] in "0123456789abcdefABCDEF":
                    j += 1
                out.append(chr(int(body[i + 1:j], 16) & 255)); i = j
                continue
            out.append(chr(_ESC.get(c, ord(c))))
            i += 1
        else:
            out.append(c); i += 1
    return "".join(out)


def parse_const(n):
    v = n.value
    if n.type == "char":
        s = unescape(v[1:-1])
        return ord(s)
    if n.type == "string":
        return ("s", unescape(v[1:-1]))
    t = v.rstrip("uUlL") if not v.lower().startswith("0x") else v.rstrip("uUlL")
    if "float" in n.type or "double" in n.type:
        return None
    if t.lower().startswith("0x"):
        return int(t, 16)
    if t.lower().startswith("0b"):
        return int(t, 2)
    if len(t) > 1 and t[0] == "0":
        return int(t, 8)
    return int(t)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def fold(op, a, b):
    try:
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "/": return cdiv(a, b) if b else None
        if op == "%": return a - cdiv(a, b) * b if b else None
        if op == "&": return a & b
        if op == "|": return a | b
        if op == "^": return a ^ b
        if op == "<<": return a << b if 0 <= b < 128 else None
        if op == ">>": return a >> b if b >= 0 else None
        if op == "<": return int(a < b)
        if op == ">": return int(a > b)
        if op == "<=": return int(a <= b)
        if op == ">=": return int(a >= b)
        if op == "==": return int(a == b)
        if op == "!=": return int(a != b)
        if op == "&&": return int(bool(a) and bool(b))
        if op == "||": return int(bool(a) or bool(b))
    except Exception:
        return None
    return None


_units = {}


def unit(name):
    if name not in _units:
        _units[name] = Unit(name, CONFIGS[name])
    return _units[name]


def loc(node, default="?"):
    c = getattr(node, "coord", None)
    if c is None:
        return default
    return "%s:%s" % (os.path.relpath(os.path.join(REPO, str(c.file)), REPO) if not str(c.file).startswith("<") else c.file, c.line)
