"""C01: the command line of the compiler means what it says, and a failed compilation is reported by the exit status."""
import itertools
from frontend import CONFIGS, Broken
from front import Lexer, Runaway, KW
from absint import t_add, is_int
from cppref import CppError
from cpp_macros import reference, pretty
import lex_tokens

TARGET = {"sh": ["PNUT_SH"], "i386": ["PNUT_EXE", "PNUT_EXE_32", "PNUT_I386", "PNUT_I386_LINUX"],
          "x64": ["PNUT_EXE", "PNUT_EXE_64", "PNUT_X86_64", "PNUT_X86_64_LINUX"],
          "mac": ["PNUT_EXE", "PNUT_EXE_64", "PNUT_X86_64", "PNUT_X86_64_MAC"]}
OPEN_FAILS = "/nope/out"
PROBE = "a\n#ifdef NAME\nd NAME e\n#else\nu\n#endif\nNAME\nPNUT_CC b\n#undef NAME\n#define NAME 77\nNAME\n"
PROBE_IF = PROBE + "#if NAME == 77\ny\n#endif\n#ifdef NAME\nz\n#endif\n"
PROBE_NUM = "#if NAME == 5\nfive\n#elif NAME\nother\n#else\nzero\n#endif\nNAME"


def strip(cfg):
    return cfg.split("-")[0]


class Main:
    """Interprets main() for an argument vector; the parser is replaced by a consumer that takes one token at a time, the
    code generator and the operating system by recorders."""

    def __init__(self, r, cfg):
        self.r = r
        self.cfg = cfg
        self.ck = lex_tokens.Check(r, cfg)
        L = self.L = self.ck.L
        u = L.u
        u.require("main", "get_tok", "parse_declaration", "codegen_begin", "codegen_glo_decl", "codegen_end")
        L.it.h.update({"parse_declaration": self.h_parse, "codegen_begin": self.rec("begin"), "codegen_end": self.rec("end"),
                       "codegen_glo_decl": self.rec("decl"), "open": self.h_open, "write": self.h_write, "exit": self.h_exit,
                       "signal": self.rec("signal"), "printf": self.h_printf, "fopen": self.h_fopen, "creat": self.h_creat, "fclose": L.h_none})
        u.noreturn = {"exit", "_exit", "abort"}
        st = L.base.copy()
        # back to the state before main: only the initialisers of the globals
        from absint import State
        s0 = State()
        for g, d in u.globals.items():
            init = getattr(d, "init", None)
            if init is not None:
                v = u.const_eval(init)
                if v is not None:
                    s0.g[g] = v
            elif type(d.type).__name__ in ("TypeDecl", "PtrDecl"):
                s0.g[g] = 0
        s0.g["$cp"] = 0
        s0.g["$new"] = 0
        self.zero = s0

    def rec(self, what):
        def h(it, st, args, node):
            st.emit(what)
            return [(st.fresh("ret"), st)]
        return h

    def h_parse(self, it, st, args, node):
        L = self.L
        t, v = st.resolve(st.g["tok"]), st.resolve(st.g["val"])
        k = L.names.get(t, t)
        if k in ("IDENTIFIER", "MACRO", "TYPE", "STRING"):
            v = L.spelling(st, v) if is_int(v) else ("?", v)
        elif isinstance(k, str) and k.startswith("INTEGER"):
            k, v = "INTEGER", self.ck.int_value(st, v)
        elif k != "CHARACTER":
            v = None
        st.emit("tok", k, v)
        return [(st2.fresh("decl"), st2) for _, st2 in it.call("get_tok", [], st)]

    def h_open(self, it, st, args, node):
        n = self.L.cstring(st, args[0]) if args[0] != 0 else None
        fl = st.resolve(args[1]) if len(args) > 1 else None
        md = st.resolve(args[2]) if len(args) > 2 else None
        fd = -1 if n is None or n in ("", OPEN_FAILS) else 5 + st.g["$new"]
        st.g["$new"] += 1
        st.emit("open", n, fl, md, fd)
        return [(fd, st)]

    def h_creat(self, it, st, args, node):
        return self.h_open(it, st, [args[0], 577, args[1] if len(args) > 1 else None], node)

    def h_fopen(self, it, st, args, node):
        n = self.L.cstring(st, args[0]) if args[0] != 0 else None
        st.emit("fopen", n)
        return self.L.h_fopen(it, st, args, node)

    def h_write(self, it, st, args, node):
        st.emit("write", st.resolve(args[0]))
        n = st.resolve(args[2]) if len(args) > 2 else 1
        return [(n, st)]

    def h_exit(self, it, st, args, node):
        it.deaths.append(("exit", tuple(args), st, node, tuple(it.stack)))
        return []

    def h_printf(self, it, st, args, node):
        st.emit("out", 0)
        return [(0, st)]

    def run(self, args, files):
        """[outcome] over the paths; an outcome is (status, events, state)."""
        L = self.L
        L.symid = {}
        L.files = files
        L.src = []
        st = self.zero.copy()
        del L.it.deaths[:]
        L.it.steps = 0
        av = ("arr", "argv")
        argv = ["pnut"] + list(args)
        for i, a in enumerate(argv):
            p = ("arr", "arg%d" % i)
            st.mem[("m", t_add(av, i))] = p
            for j, c in enumerate(a + "\0"):
                st.mem[("m", t_add(p, j))] = ord(c)
        st.mem[("m", t_add(av, len(argv)))] = 0
        for k in range(0, 16):
            st.mem[("m", k)] = 0       # a read through the null pointer that ends the argument vector sees no characters
        out = [(st2.resolve(v) if v is not None else 0, st2.events(), st2) for v, st2 in L.it.call("main", [len(argv), av], st)]
        for name, args, ds, node, stack in L.it.deaths:
            out.append((ds.resolve(args[0]) if args else 1, ds.events(), ds))
        return out


def want_tokens(prefix, texts, files, search, cfg):
    """The possible token lists, one per order of the named files; None when C rejects the program."""
    pre = "#define PNUT_CC 1\n" + "".join("#define %s 1\n" % m for m in TARGET[strip(cfg)]) + prefix
    res = []
    for perm in itertools.permutations(texts):
        fs = dict(files)
        src = pre
        for n in perm:
            src += "#include \"%s\"\n" % n
        try:
            res.append(reference(src, fs, search))
        except CppError:
            res.append(None)
    return res


def judge(m, case):
    """None or what is wrong."""
    args, files, want = case["args"], case["files"], case["want"]
    try:
        outs = m.run(args, files)
    except Runaway:
        return "makes the compiler loop"
    if not outs:
        return "has no outcome"
    for status, ev, st in outs:
        kinds = [e[0] for e in ev]
        done = "end" in kinds
        toks = [(e[1], e[2]) for e in ev if e[0] == "tok"]
        ok = status == 0
        if not is_int(status):
            return "ends with an undetermined status"
        if status & 255 == 0 and status != 0:
            return "ends with status %d, which the system reports as success" % status
        if want is None or (want and all(w is None for w in want)):
            if ok:
                return "succeeds%s, it has to be rejected" % (" with the tokens %s" % pretty(toks) if toks else "")
            if "out" not in kinds:
                return "is rejected without a message"
            continue
        if not ok:
            if case.get("optional"):
                continue
            msg = "".join(chr(e[1]) for e in ev if e[0] == "out" and is_int(e[1]))
            return "is rejected: %s" % msg.strip()
        if not done:
            return "succeeds without finishing the output"
        if kinds.count("end") != 1 or kinds.count("begin") != 1 or kinds[-1] == "tok":
            return "does not produce the output exactly once"
        ks = [k for k in kinds if k in ("begin", "end", "tok", "decl")]
        if ks[0] != "begin" or ks[-1] != "end" or ks[1:-1] != ["tok", "decl"] * len(toks):
            return "does not generate code for each declaration once, between the beginning and the end"
        if toks not in [w for w in want if w is not None]:
            return "compiles %s instead of %s" % (pretty(toks), pretty([w for w in want if w is not None][0]))
        if strip(m.cfg) != "sh":
            x = output(m, ev, st, case.get("out"))
            if x:
                return x
    return None


def output(m, ev, st, name):
    """The descriptor the code generator writes to."""
    opens = [e for e in ev if e[0] == "open"]
    if name is None:
        fd = 1
    else:
        g = [e for e in opens if e[1] == name]
        if not g:
            return "does not open the output file"
        _, n, fl, md, fd = g[-1]
        if not is_int(fl) or fl & 3 not in (1, 2) or not fl & 64 or not fl & 512 or fl & 1024:
            return "opens the output file with flags %r: not created, truncated and written" % (fl,)
        if not is_int(md) or md & 0o600 != 0o600:
            return "creates the output file with mode %r" % (md,)
    for f in writers(m.L.u):
        s = st.copy()
        s.trace = 0
        try:
            rs = m.L.it.call(f, [], s)
        except Runaway:
            continue
        for v, s2 in rs:
            for e in s2.events():
                if e[0] == "write" and e[1] != fd:
                    return "writes the code to descriptor %r instead of %r" % (e[1], fd)
    return None


def writers(u):
    from pycparser import c_ast
    out = []

    class V(c_ast.NodeVisitor):
        def visit_FuncCall(self, n):
            if isinstance(n.name, c_ast.ID) and n.name.name == "write":
                self.hit = True
            self.generic_visit(n)
    for n, f in u.funcs.items():
        v = V()
        v.hit = False
        v.visit(f.body)
        if v.hit:
            out.append(n)
    return out


def cases(cfg, deep):
    sh = strip(cfg) == "sh"
    F = {"a.c": PROBE.replace("NAME", "N")}
    base = dict(files=F)

    def case(rule, key, args, prefix="", names=("a.c",), files=F, search=None, out=None, want=0, optional=False):
        w = None if want is None else want_tokens(prefix, names, files, search, cfg)
        return rule, key, dict(args=args, files=files, want=w, out=out, optional=optional)

    # macros: spelled together or apart, before or after the file, in every order
    def d(n, v):
        if v is None:
            return "#define %s 1\n" % n
        return "#define %s %s\n" % (n, v)
    vals = [None, "0", "1", "5", "42", "007" if False else "7", "2147483647", "", '"s"', '""', '"a b"', '"%d;"']
    for n in ["N", "A_b9", "_", "Nn", "PNUT_CC", "while", "a"] + (["Z" * 40, "int", "d"] if deep else []):
        f = {"a.c": PROBE.replace("NAME", n)}
        for v in vals:
            o = n if v is None else n + "=" + v
            for sep in (False, True):
                a = ["-D", o] if sep else ["-D" + o]
                if n == "PNUT_CC":
                    pre = "#undef PNUT_CC\n" + d(n, v)
                else:
                    pre = d(n, v)
                yield case("-D", "-D %s%s, option %s" % (n if n != "Z" * 40 else "a long name", "" if v is None else "=" + v, "apart" if sep else "joined"), a + ["a.c"], pre, files=f)
                if n == "N":
                    yield case("-D", "-D %s after the file, %s" % (o, "apart" if sep else "joined"), ["a.c"] + a, pre, files=f)
                    yield case("-D", "-D %s in a condition, %s" % (o, "apart" if sep else "joined"), a + ["a.c"], pre, files={"a.c": PROBE_NUM.replace("NAME", n)}) if v is None or v.isdigit() else \
                        case("-D", "-D %s twice, %s" % (o, "apart" if sep else "joined"), ["-DN=3"] + a + ["a.c"], pre, files=f)
                    yield case("-D", "-D %s after another definition of it, %s" % (o, "apart" if sep else "joined"), ["-DN=9"] + a + ["a.c"], pre, files=f)
                    yield case("-D", "-D %s and another macro, %s" % (o, "apart" if sep else "joined"), ["-DM=N"[:3]] + a + ["a.c", "-DK=4"], "#define M 1\n#define K 4\n" + pre, files={"a.c": PROBE.replace("NAME", n) + "M K"})
    for v in ("x", "5x", "-", '"s', "0y", "(", "+1"):
        yield case("rejected", "-D N=%s" % v, ["-DN=" + v, "a.c"], d("N", v), want=0, optional=True) if v not in ('"s', "5x", "0y") else case("rejected", "-D N=%s" % v, ["-DN=" + v, "a.c"], want=None)
    # -U
    for n in ["N", "A_b9", "PNUT_CC", "M"]:
        f = {"a.c": PROBE.replace("NAME", n) + "M K"}
        for sep in (False, True):
            a = ["-U", n] if sep else ["-U" + n]
            s = "apart" if sep else "joined"
            u_ = "#undef %s\n" % n
            yield case("-U", "-U %s, %s" % (n, s), a + ["a.c"], u_, files=f)
            yield case("-U", "-U %s after the file, %s" % (n, s), ["a.c"] + a, u_, files=f)
            for dd, dp in (("-D" + n, d(n, None)), ("-D%s=4" % n, d(n, "4")), ("-D%s=\"t\"" % n, d(n, '"t"')), ("-D%s=" % n, d(n, ""))):
                yield case("-U", "-U %s after %s, %s" % (n, dd, s), [dd] + a + ["a.c"], u_, files=f)
                yield case("-U", "-U %s before %s, %s" % (n, dd, s), a + [dd, "a.c"], u_ + dp, files=f)
            yield case("-U", "-U %s and other macros, %s" % (n, s), ["-DK=4"] + a + ["-DM2", "a.c"], "#define K 4\n#define M2 1\n" + u_, files=f)
    # predefined macros
    ms = sorted({x for v in TARGET.values() for x in v})
    f = {"a.c": "".join("#ifdef %s\nhas_%s %s\n#endif\n#if defined(%s) && %s == 1\nis\n#endif\n" % (x, x, x, x, x) for x in ms + ["PNUT_CC"])}
    yield case("predefined", "predefined macros", ["a.c"], files=f)
    # -I
    fs = {"a.c": "s\n#include <h.h>\nt\n#include \"q.h\"\ne", "q.h": "q\n", "inc/h.h": "h\n#include <g.h>\n", "inc/g.h": "g", "inc/q.h": "wrong", "inc/d/h.h": "hd", "h.h": "wrong", "g.h": "wrong"}
    for sep in (False, True):
        for di in ("inc/", "inc/d/", "./"):
            a = ["-I", di] if sep else ["-I" + di]
            s = "apart" if sep else "joined"
            if di == "./":
                f2 = {"a.c": fs["a.c"], "q.h": "q", "./h.h": "h"}
            else:
                f2 = fs
            for pos in (0, 1):
                yield case("-I", "-I %s %s the file, %s" % (di, "after" if pos else "before", s), ["a.c"] + a if pos else a + ["a.c"], files=f2, search=di)
            yield case("-I", "-I %s with a missing header, %s" % (di, s), a + ["a.c"], files={"a.c": "s\n#include <nope.h>\nt", "nope.h": "x"}, want=None)
    # files
    f = {"a.c": "a1\na2", "b.c": "b1\n#ifdef N\nN\n#endif\nb2\n", "c.c": "/* c */ c1 // x", "d/e.c": "e1\n#include \"f.h\"\ne2", "d/f.h": "f1", "f.h": "wrong", "empty.c": "", "nl.c": "\n\n", "hash.c": "#define Q 1\nq", "cond.c": "#if 0\nno\n#else\nyes\n#endif"}
    one = list(f)
    for n in one:
        if n not in ("d/f.h", "f.h"):
            yield case("files", "one file, %s" % n, [n], names=(n,), files=f)
    for x, y in itertools.permutations(["a.c", "b.c", "c.c", "d/e.c", "empty.c", "nl.c", "hash.c", "cond.c"], 2):
        yield case("files", "two files, %s and %s" % (x, y), [x, "-DN=5", y], d("N", "5"), names=(x, y), files=f)
    for t in itertools.permutations(["a.c", "d/e.c", "c.c", "cond.c"], 3):
        yield case("files", "three files, %s" % " ".join(t), list(t), names=t, files=f)
    # rejected
    yield case("rejected", "no argument", [], want=None)
    yield case("rejected", "no file", ["-DN"], want=None)
    yield case("rejected", "missing file", ["none.c"], want=None)
    yield case("rejected", "missing file before a file", ["none.c", "a.c"], want=None)
    yield case("rejected", "missing file after a file", ["a.c", "none.c"], want=None)
    yield case("rejected", "empty file name", [""], want=None)
    yield case("rejected", "empty file name after a file", ["a.c", ""], want=None)
    for o in ["-", "--", "--help", "-x", "-c", "-O2", "-W", "-d", "-i", "-u", "-DD"[:1] + "v", "-g", "-s", "-E", "-S", "-l", "-L", "-5", "-\x7f", "- o"] + (["-o", "-ofile"] if sh else ["-O"]):
        ex = ["out"] if o == "-o" else []
        yield case("rejected", "unknown option %s" % o, [o] + ex + ["a.c"], want=None)
        yield case("rejected", "unknown option %s after the file" % o, ["a.c", o] + ex, want=None)
    for o in ["-D", "-U", "-I"] + ([] if sh else ["-o"]):
        yield case("rejected", "%s as the last argument" % o, ["a.c", o], want=None)
        yield case("rejected", "%s as the only argument" % o, [o], want=None)
    for n, e in (("error directive", "a\n#error no\nb"), ("bad directive", "a\n#nope\nb"), ("unterminated string", "a \"b"), ("unterminated comment", "a /* b"), ("missing header", "#include \"none.h\"\n"), ("unterminated conditional", "#if 1\na\n"), ("#else without #if", "a\n#else\nb")):
        yield case("rejected", n, ["bad.c"], files={"bad.c": e}, want=None)
    # -o
    if not sh:
        for sep in (False, True):
            s = "apart" if sep else "joined"

            def a(n):
                return ["-o", n] if sep else ["-o" + n]
            for n in ("out", "d/x.exe", "o"):
                yield case("-o", "-o %s before the file, %s" % (n, s), a(n) + ["a.c"], out=n)
                yield case("-o", "-o %s after the file, %s" % (n, s), ["a.c"] + a(n), out=n)
                yield case("-o", "-o %s among other options, %s" % (n, s), ["-DN=5"] + a(n) + ["-UM", "a.c"], d("N", "5"), out=n)
            yield case("-o", "-o with a file that cannot be opened, %s" % s, a(OPEN_FAILS) + ["a.c"], want=None)
            yield case("-o", "-o with a file that cannot be opened, after the file, %s" % s, ["a.c"] + a(OPEN_FAILS), want=None)


def run_main(r, cfg, js):
    m = Main(r, cfg)
    for rule, key, case in js:
        msg = judge(m, case)
        cl = " ".join(x if x and not set(x) & set(' "(') else "'%s'" % x for x in ["pnut"] + case["args"])
        r.ob(rule, msg is None, key, "main [%s]" % cfg, msg and "`%s` %s" % (cl, msg), sample=None if msg else cl)
    r.use(m.L.u, [f for f in m.L.it.funcs_seen])


def run_errors(r, cfg):
    """Every function that does not return ends the process with a status that reports the failure."""
    from frontend import unit
    from absint import Interp, State
    u = unit(cfg)
    nr = sorted(f for f in u.noreturn if f in u.funcs)
    saved = u.noreturn
    for f in nr:
        L = Lexer(cfg)
        L.u.noreturn = {"exit", "_exit", "abort"}
        L.it.on_unroll = None
        dead = []
        L.it.h["exit"] = lambda it, st, a, n: (dead.append((a, st)), [])[1]
        st = L.base.copy()
        msg = None
        live = L.it.call(f, [("s", "message")] * 4, st)
        if live:
            msg = "returns"
        for a, s in dead:
            v = s.resolve(a[0]) if a else None
            if not is_int(v) or v & 255 == 0:
                msg = "ends the compilation with status %r" % (v,)
        r.ob("errors", msg is None, "%s %s" % (f, "status"), "%s [%s]" % (f, cfg), msg and "%s() %s" % (f, msg), sample=None if msg else "%s ends with a failure status" % f)
        r.use(u, [f])
    u.noreturn = saved
    # a failed write of the output
    for f in writers(u):
        for how, val in (("fails", -1), ("writes nothing", 0)):
            L = Lexer(cfg)
            hit = []

            def h(it, st, a, n):
                st.g["$failed"] = 1
                hit.append(1)
                return [(val, st)]
            L.it.h["write"] = h
            msg = None
            for attempt in (0, 1):
                st = L.base.copy()
                if attempt:     # the function writes nothing from the initial state: any state
                    for g in u.mods.get(f, ()):
                        st.g.pop(g, None)
                st.g["$failed"] = 0
                try:
                    for v, s in L.it.call(f, [], st):
                        if s.g.get("$failed"):
                            msg = "goes on when write() %s: the output is incomplete and the compilation succeeds" % ("fails" if val else "writes nothing")
                except Runaway:
                    msg = None if val == 0 else "loops when write() fails"
                if hit:
                    break
            r.ob("write", msg is None, "%s when write() %s" % (f, how), "%s [%s]" % (f, cfg), msg and "%s() %s" % (f, msg), sample=None if msg else "%s stops when write() %s" % (f, how))
            r.use(u, [f])


def run(r):
    r.rule("-D", "a macro given on the command line is the one of a #define in front of the file, wherever the option is and however it is spelled")
    r.rule("-U", "an undefined macro is not defined at the start of the file; the last option about a name counts")
    r.rule("-I", "bracketed headers come from the given directory")
    r.rule("-o", "the output goes to the file named, created and truncated, and to standard output without the option")
    r.rule("files", "every file named is compiled exactly once, whole, with quoted headers relative to its own directory")
    r.rule("predefined", "the macros that name the compiler and its target are defined")
    r.rule("rejected", "unknown options, missing arguments and files, and errors of the source end with a message and a failure status, without success")
    r.rule("errors", "every function that ends the compilation does it with a status other than zero")
    r.rule("write", "a failed write of the output ends the compilation with a failure")
    r.assumptions += ["open and fopen open exactly the named files", "the name of a search directory ends with a slash", "the order of several files is not prescribed"]
    ok = ["sh", "x64", "i386", "mac"] if r.tier == "quick" else [c for c in CONFIGS if strip(c) in TARGET]
    tasks = []
    N = 4 if r.tier == "quick" else 3
    for c in ok:
        js = list(cases(c, r.tier == "thorough"))
        for i in range(N):
            tasks.append(("%s/%d" % (c, i), lambda q, c=c, js=js, i=i: run_main(q, c, js[i::N])))
        tasks.append(("%s/errors" % c, lambda q, c=c: run_errors(q, c)))
    r.parallel(tasks)
    r.expect("-D", 200)
    r.expect("rejected", 100)
