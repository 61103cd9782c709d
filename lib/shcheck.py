"""Comparison of the shell code emitted for a schema with its C meaning."""
from frontend import Broken
from shgen import ShGen, Rejected
from shsem import (parse, World, Exec, Oracle, Leave, Cutoff, ShellSyntax, Unsupported, split_name, is_name_start)
from shref import Builder, CRef, Return, show

_rt = {}


def runtime_functions(cfg):
    """Definitions of let/endlet (the saving of local variables) as the runtime library emits them."""
    if cfg not in _rt:
        g = ShGen(cfg)
        g.clear()
        g.call("runtime_local_vars")
        _rt[cfg] = parse(g.text())
    return _rt[cfg]


class Case:
    """One function schema."""

    def __init__(self, key, params, body, globals_=(), locals_=(), void=False, must=True, prelude=None, funs=()):
        self.key, self.params, self.body = key, list(params), body
        self.funs = list(funs)      # the other functions of the program: (name, params, body, void)
        self.globals, self.void, self.must = list(globals_), void, must
        self.prelude = prelude


def default_intrinsics(funs):
    """Shell-side calls of the functions of the schema (their names are never defined by the text)."""
    def handler(f):
        def h(x, args, redirs):
            if redirs:
                raise Unsupported("redirected call")
            if not args:
                raise ShellSyntax("call of %s without a destination" % f)
            d = args[0]
            dk = x.dest(d)
            vs = []
            for a in args[1:]:
                v = x.value(a)
                if isinstance(v, tuple) and v[0] in ("s", "mix", "ref"):
                    raise ShellSyntax("argument of %s is the text %r" % (f, v))
                vs.append(v)
            r = x.w.call(f, vs)
            if dk != ("__", None):
                x.w.write(dk, r)
            else:
                x.w.vars[dk] = 0
            return True
        return h
    return {"_" + f: handler(f) for f in funs}


NULL = ("__", None)


def emit(case, cfg, base=None):
    """(text, spelling function); raises Rejected."""
    g = (base or ShGen(cfg)).fork()
    b = Builder(g)
    g.clear()
    for f in case.funs:
        g.call("codegen_glo_decl", b.function(*f))
    g.call("codegen_glo_decl", b.function("?f", case.params, case.body, case.void))
    return g.text(), g


def c_functions(case):
    """C meaning of calls of the functions of the program."""
    def handler(name, params, body, void):
        def h(c, vs, e):
            if len(vs) != len(params):
                raise Broken("schema calls %s with %d arguments" % (name, len(vs)))
            n = CRef(c.w, c.spell, c.intr, c.steps)
            n.depth = getattr(c, "depth", 0) + 1
            if n.depth > 40:
                raise Cutoff()
            n.loc.update(zip(params, vs))
            rv = ("none",)
            try:
                n.run(body)
            except Return as r:
                rv = r.v
            c.steps = n.steps
            return ("none",) if rv is None else rv
        return h
    return {f[0]: handler(*f) for f in case.funs + [("?f", case.params, case.body, case.void)]}


def check(rep, rule, case, cfg, base=None, budget=7, extra=None, where=None, prelude=(), consts=None, sh_intr=None, c_intr=None,
          accept_reject=False, max_paths=400, deferred=None):
    src = "; ".join(show(s) for s in case.body)
    if case.funs:
        c_intr = dict(c_functions(case), **(c_intr or {}))
        src = " ".join("%s(%s) { %s }" % (f[0].strip("?"), ", ".join(p.strip("?") for p in f[1]), "; ".join(show(s) for s in f[2])) for f in case.funs) + " f { %s }" % src
    where = where or "sh.c [%s]: %s" % (cfg, src)
    try:
        text, g = emit(case, cfg, base)
    except Rejected as r:
        if accept_reject or not case.must:
            return rep.ob(rule, True, case.key, where, "", "rejected: %s" % r.message)
        return rep.ob(rule, False, case.key, where, "a supported program is rejected: %s" % r.message)
    bad = explain(case, cfg, text, g, budget, prelude, consts or {}, sh_intr or {}, c_intr or {}, max_paths)
    key = case.key
    if bad and deferred and explain(case, cfg, text, g, budget, prelude, consts or {}, sh_intr or {}, c_intr or {}, max_paths, loose=True) is None:
        key = deferred       # the same outputs and the same calls, but interleaved otherwise
    return rep.ob(rule, bad is None, key, where, bad and "%s; emitted: %s" % (bad, squeeze(text, g)),
                  squeeze(text, g))


def squeeze(text, g):
    for n in g.names:
        if n.startswith("?"):
            text = text.replace(g.spelling(n), n[1:])
    return " / ".join(l.strip() for l in text.split("\n") if l.strip())


def explain(case, cfg, text, g, budget=7, prelude=(), consts=None, sh_intr=None, c_intr=None, max_paths=400, loose=False):
    """None when the text means the schema; else what differs."""
    try:
        prog = parse(text)
    except ShellSyntax as e:
        if undefined_in_c(case, g, c_intr or {}):
            return None
        return "the emitted text is not well-formed shell: %s" % e
    spell = g.spelling
    mine = {"?f"} | {f[0] for f in case.funs}
    calls = [spell(f) for f in called([case.body] + [f[2] for f in case.funs]) if f not in mine or (f == "?f" and not case.funs)]
    rt = runtime_functions(cfg)
    script = []
    n = 0
    while script is not None:
        n += 1
        if n > max_paths:
            break
        o = Oracle(script, budget=budget)
        w = World(o, [split_name("_" + spell(x)) for x in case.globals])
        x = Exec(w, builtins=dict(default_intrinsics(calls), **(sh_intr or {})))
        cut = False
        before = {}
        try:
            x.run(rt)
            x.run(prelude)
            x.run(prog)
            w.events.clear()
            w.gmod.clear()
            for k in list(w.vars):
                if not w.is_global(k) and k not in w.readonly and k != NULL:
                    w.vars[k] = ("v", "old." + k[0] + ("" if k[1] is None else str(k[1])))
            before = dict(w.vars)
            rk = ("Result", None)
            w.vars[rk] = ("v", "result0")
            x.callf("_" + spell("?f"), [("ref", rk)] + [("v", "arg." + p) for p in case.params])
        except Cutoff:
            cut = True
        except Leave as l:
            if l.kind != "exit":
                return "control leaves the function by %s" % l.kind
            w.event("stop")
        except ShellSyntax as e:
            if undefined_in_c(case, g, c_intr or {}, o.known):
                return None
            return "ill-formed when executed: %s" % e
        except Unsupported as e:
            raise Broken("shell construct without a model (%s) in: %s" % (e, squeeze(text, g)))
        bad = against_c(case, g, w, o, cut, budget, before, c_intr or {}, loose)
        if bad:
            return bad + path(o)
        script = Oracle.next_script(o.taken)
    return None


def path(o):
    return " (when %s)" % ", ".join("%s is %s" % (short(t), "true" if v else "false") for t, v in o.known.items()) if o.known else ""


def short(t):
    if isinstance(t, int):
        return str(t)
    if t[0] == "v":
        return t[1]
    if t[0] == "o":
        if t[1] in ("sel", "cell"):
            return "mem[%s]" % short(t[-1])
        return "(" + (" %s " % t[1]).join(short(x) for x in t[2:]) + ")" if len(t) > 3 else "%s%s" % (t[1], short(t[2]))
    if t[0] == "lin":
        return "(" + "+".join((["%d" % t[1]] if t[1] else []) + ["%s%s" % ("" if k == 1 else "%d*" % k, short(a)) for a, k in t[2]]) + ")"
    if t[0] == "s":
        return repr(t[1])
    return repr(t)


def show_event(e):
    if e is None:
        return "the end"
    if e[0] == "call":
        gl = ["%s=%s" % (k[0][1:], short(v)) for k, v in e[3][0]] + ["*%s=%s" % (short(a), short(v)) for a, v in e[3][1]]
        return "call f(%s)%s" % (",".join(short(a) for a in e[2]), " with " + ",".join(gl) if gl else "")
    return " ".join(short(x) if isinstance(x, tuple) and x and x[0] in ("v", "o", "lin", "s") else str(x) for x in e)


def undefined_in_c(case, g, c_intr, known=None):
    """Does some path of the schema use a fixed negative address, which is no object in C?"""
    script = []
    n = 0
    while script is not None and n < 64:
        n += 1
        o = Oracle(script, known=known, budget=4)
        cw = World(o, w_declared(case, g))
        c = CRef(cw, g.spelling, c_intr)
        for p in case.params:
            c.loc[p] = ("v", "arg." + p)
        try:
            c.run(case.body)
        except ShellSyntax:
            return True
        except (Return, Leave, Cutoff):
            pass
        script = Oracle.next_script(o.taken)
    return False


def against_c(case, g, w, o, cut, budget, before, c_intr, loose=False):
    script = []
    paths = 0
    while script is not None:
        paths += 1
        if paths > 64:
            return None
        o2 = Oracle(script, known=o.known, budget=4 if not cut else 0)
        cw = World(o2, w_declared(case, g))
        c = CRef(cw, g.spelling, c_intr)
        cw.readonly = set(w.readonly)
        ccut = False
        rv = ("none",)
        for p in case.params:
            c.loc[p] = ("v", "arg." + p)
        try:
            c.run(case.body)
        except Return as r:
            rv = r.v
        except Cutoff:
            ccut = True
        except ShellSyntax:
            return None      # undefined in C on this path (a fixed address that is no object)
        except Leave as l:
            if l.kind != "exit":
                raise Broken("schema leaves by " + l.kind)
            cw.event("stop")
        a, b = w.events, cw.events
        if loose:
            a, b = ([e for e in l if e[0] != "out"] + [e for e in l if e[0] == "out"] for l in (a, b))
        for i in range(max(len(a), len(b))):
            ea = a[i] if i < len(a) else None
            eb = b[i] if i < len(b) else None
            if (ea is None and cut) or (eb is None and ccut):
                break
            if ea != eb:
                return "the shell does %s where C does %s" % (show_event(ea), show_event(eb))
        if not cut and not ccut:
            stopped = bool(b) and b[-1][0] == "stop"
            if w.snap() != cw.snap():
                return "at the end the shell leaves %s where C leaves %s" % (show_snap(w.snap()), show_snap(cw.snap()))
            if not stopped:
                got = w.vars[("Result", None)]
                if rv is None or rv == ("none",):
                    if case.void and got != ("v", "result0"):
                        return "a function without result returns %s" % short(got)
                elif got != rv:
                    return "the shell returns %s where C returns %s" % (short(got), short(rv))
                for k, v in before.items():
                    if not w.is_global(k) and k not in w.readonly and k[0] not in ("__", "__tmp", "__ret") and w.vars.get(k) != v:
                        return "variable %s of the caller is left with %s" % (pretty(k, g), short(w.vars.get(k)))
        elif not cut and ccut:
            return "the shell stops where C goes on"
        elif cut and not ccut and not o2.taken and len(a) > len(b):
            return "the shell goes on where C stops"
        script = Oracle.next_script(o2.taken)
    return None


def pretty(k, g):
    n = k[0] + ("" if k[1] is None else str(k[1]))
    for m in g.names:
        if m.startswith("?"):
            n = n.replace(g.spelling(m), m[1:])
    return n


def show_snap(s):
    return "{" + ", ".join(["%s=%s" % (k[0], short(v)) for k, v in s[0]] + ["*%s=%s" % (short(a), short(v)) for a, v in s[1]]) + "}"


def w_declared(case, g):
    return [split_name("_" + g.spelling(x)) for x in case.globals]


def called(x, acc=None):
    acc = acc if acc is not None else []
    if isinstance(x, (tuple, list)):
        if isinstance(x, tuple) and x and x[0] == "call" and isinstance(x[1], str):
            if x[1] not in acc:
                acc.append(x[1])
        for y in x:
            called(y, acc)
    return acc
