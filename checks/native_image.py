"""Native images: label references resolve to the place of the label, and the container headers describe the code."""
import itertools
from frontend import unit, Broken
from absint import t_add, t_scale, is_int, Dom, base_of
from native import BadCode, Machine, SP, SP0
from x86dec import Decoder, bits, byte_of, field
from cgen import Gen, fmt, macro, word

CODE = ("arr", "code")


class Real(Gen):
    """The code's own labels."""

    def __init__(self, cfg):
        Gen.__init__(self, cfg)
        for h in ("use_label", "def_label", "alloc_label", "alloc_label_", "alloc_goto_label"):
            self.it.h.pop(h, None)
        self.st.g["labels_ix"] = 0

    def label(self):
        return self.call("alloc_label_") if "alloc_label_" in self.u.funcs else self.call("alloc_label", 0)


def paths(g, sts, fname, *args):
    out = []
    for st in sts:
        out += [s for _, s in g.it.call(fname, list(args), st)]
    return out


# ---------------------------------------------------------------- labels
def histories(quick):
    """Orders of references (lower case) and definitions (upper case) of up to three labels."""
    n = 5 if quick else 6
    out = []
    for k in range(1, n + 1):
        for s in itertools.product("aAbB", repeat=k):
            t = "".join(s)
            if t.lower().replace("b", "") == "" or t.count("A") > 2 or t.count("B") > 1:
                continue
            if t.count("A") == 2 and not t.endswith("A"):
                continue
            out.append(t)
    out += ["abcABC", "abcCBA", "cabABcCb", "aaaaAa", "aAaaa", "abababABab", "aaabbbBAcaC"]
    return out


def labels(r, cfg, quick):
    g0 = Real(cfg)
    names = {c: g0.label() for c in "abc"}
    safe = "safe" in cfg
    start = ("v", "C0")
    for h in histories(quick):
        g0_st = g0.st.copy()
        st = g0_st
        st.g["code_alloc"] = start
        st.cons[((start, 1),)] = Dom(5, 100000)
        key, where = h, "exe.c [%s]: label history %s" % (cfg, h)
        sts = [st]
        pos, uses, defs, twice = start, [], {}, False
        n0 = len(g0.it.deaths)
        for i, c in enumerate(h):
            gap = ("v", "gap%d" % i)
            pos = t_add(pos, gap)
            for s in sts:
                s.cons[((gap, 1),)] = Dom(0, 30000)
                s.g["code_alloc"] = t_add(s.g["code_alloc"], gap)
            if c.islower():
                uses.append((c, pos))
                pos = t_add(pos, 4)
                sts = paths(g0, sts, "use_label", names[c])
            else:
                if c.lower() in defs:
                    twice = True
                defs.setdefault(c.lower(), pos)
                sts = paths(g0, sts, "def_label", names[c.lower()])
            if not sts:
                break
        msg = None
        missing = [c for c, _ in uses if c not in defs]
        if twice:
            r.ob("labels", not sts, key, where, "a label defined twice is accepted", {"config": cfg})
            continue
        if not sts:
            msg = "rejected (%s)" % (g0.it.deaths[n0][1] if len(g0.it.deaths) > n0 else "no path",)
        for s in sts:
            msg = msg or resolved(s, pos, uses, defs)
        r.ob("labels", msg is None, key, where, msg, {"config": cfg})
        if safe and sts:
            end = paths(g0, sts, "assert_all_labels_defined")
            r.ob("undefined", bool(end) != bool(missing), key, where,
                 "a label that is used but not defined is not reported" if missing else "rejected although every label is defined", {"config": cfg})
    r.use(g0.u, g0.it.funcs_seen)


def resolved(s, pos, uses, defs):
    if s.g["code_alloc"] != pos:
        return "the code ends at %s, expected %s" % (fmt(s.g["code_alloc"]), fmt(pos))
    known = set()
    for c, at in uses:
        cells = [("m", t_add(CODE, t_add(at, k))) for k in range(4)]
        known.update(cells)
        if c not in defs:
            continue
        want = bits(t_add(defs[c], t_add(at, 4), -1), 32)
        got = []
        for x in cells:
            if x not in s.mem:
                return "the reference at %s is not written" % fmt(at)
            got += bits(s.mem[x], 8)
        if got != want:
            return "the reference at %s holds %s, expected the distance %s" % (
                fmt(at), ", ".join(fmt(s.mem[x]) for x in cells), fmt(t_add(defs[c], t_add(at, 4), -1)))
    for k in s.mem:
        if k[0] == "m" and base_of(k[1]) == CODE and k not in known:
            return "code outside the references is overwritten (%s)" % fmt(k[1])
    return None


# ---------------------------------------------------------------- gotos
def gotos(r, cfg, quick):
    """Histories of goto statements and labels, in frames of unknown depth."""
    g0 = Real(cfg)
    W = g0.W
    names = {c: g0.call("alloc_goto_label") for c in "abc"}
    start = ("v", "C0")
    for h in histories(quick):
        if len(h) > (4 if quick else 6) and len(h) < 6:
            continue
        st = g0.st.copy()
        st.g["code_alloc"] = start
        st.cons[((start, 1),)] = Dom(5, 100000)
        key, where = h, "exe.c [%s]: goto history %s" % (cfg, h)
        sts = [st]
        uses, defs, twice, msg = [], {}, False, None
        try:
            for i, c in enumerate(h):
                gap, fs = ("v", "gap%d" % i), ("v", "frame%d" % i)
                for s in sts:
                    s.cons[((gap, 1),)] = Dom(0, 30000)
                    s.cons[((fs, 1),)] = Dom(0, 10000)
                    s.g["code_alloc"] = t_add(s.g["code_alloc"], gap)
                    s.g["cgc_fs"] = fs
                if len({repr(s.g["code_alloc"]) for s in sts}) > 1:
                    raise BadCode("code of different length for different frames")
                pos = sts[0].g["code_alloc"]
                if c.islower():
                    sts = paths(g0, sts, "jump_to_goto_label", names[c])
                    uses.append((c, pos, fs, [t_add(s.g["code_alloc"], pos, -1) for s in sts]))
                else:
                    twice = twice or c.lower() in defs
                    defs.setdefault(c.lower(), (pos, fs))
                    sts = paths(g0, sts, "def_goto_label", names[c.lower()])
                    if any(s.g["code_alloc"] != pos for s in sts):
                        raise BadCode("defining a label moves the end of the code")
                if any(s.g["cgc_fs"] != fs for s in sts):
                    raise BadCode("the frame is believed to change")
                if not sts:
                    break
            if twice:
                msg = "a goto label defined twice is accepted" if sts else None
            elif not sts:
                msg = "rejected"
            else:
                for s in sts:
                    for c, at, fs, lens in uses:
                        if c in defs:
                            jump_ok(g0, s, at, lens, defs[c][0], t_scale(t_add(fs, defs[c][1], -1), W))
        except BadCode as e:
            msg = str(e)
        r.ob("gotos", msg is None, key, where, msg, {"config": cfg})
    r.use(g0.u, g0.it.funcs_seen)


def jump_ok(g, s, at, lens, to, grow):
    n = lens[0]
    if not is_int(n) or any(x != n for x in lens):
        raise BadCode("a goto has no fixed length")
    cells = []
    for k in range(n):
        a = ("m", t_add(CODE, t_add(at, k)))
        if a not in s.mem:
            raise BadCode("the goto at %s is not written completely" % fmt(at))
        cells.append(byte_of(s.mem[a]))
    m = Machine(Decoder(cells, g.mode).all(), {}, g.mode, n)
    outs = m.run()
    for kind, st in outs:
        if kind != "jump":
            raise BadCode("the goto at %s ends with %s" % (fmt(at), kind))
        rel = st.trace[-1][1]
        d = t_add(st.r[SP], SP0, -1)
        if t_add(t_add(at, st.pc), rel) != to:
            raise BadCode("the goto at %s jumps to %s, the label is at %s" % (fmt(at), fmt(t_add(t_add(at, st.pc), rel)), fmt(to)))
        if d != grow:
            raise BadCode("the goto at %s moves the stack pointer by %s, expected %s" % (fmt(at), fmt(d), fmt(grow)))


# ---------------------------------------------------------------- files
def h_write(it, st, args, node):
    fd, buf, n = args
    if not is_int(n):
        raise Broken("write of a variable number of bytes")
    for k in range(n):
        a = ("m", t_add(buf, k))
        if a not in st.mem:
            raise Broken("write of unknown memory")
        st.emit("out", fd, st.mem[a])
    return [(n, st)]


class File:
    """A finished output file of k code bytes."""

    def __init__(self, st, k):
        self.out = [e for e in st.events() if e[0] == "out"]
        self.fds = {e[1] for e in self.out}
        self.bytes = [byte_of(e[2]) for e in self.out]
        self.k = k

    def n(self, off, w):
        if off + w > len(self.bytes):
            raise BadCode("the header is cut off at %d" % len(self.bytes))
        v = field(self.bytes[off:off + w], signed=False)
        if not is_int(v):
            raise BadCode("the field at %d is not a number (%s)" % (off, fmt(v)))
        return v


def files(r, cfg, quick):
    g = Real(cfg)
    top = 24 if quick else 80
    fd = ("v", "output descriptor")
    it = g.it
    it.h["write"] = h_write
    sizes = list(range(0, top)) + ([200, 4096 - 360, 4096 - 120, 4200] if cfg.startswith("mac") else [255, 256, 257, 1000])
    for k in sizes:
        st = g.st.copy()
        st.g["output_fd"] = fd
        st.g["code_alloc"] = k
        st.mem = {q: v for q, v in st.mem.items() if base_of(q[1]) != CODE}
        for i in range(k):
            c = ("v", "byte%d" % i)
            st.cons[((c, 1),)] = Dom(0, 255)
            st.mem[("m", t_add(CODE, i))] = c
        rs = []
        it.all_fixed = True
        it.unroll = 100000
        rs = it.call("generate_exe", [], st)
        key, where = "%d bytes" % k, "%s [%s]: generate_exe" % ("mach-o.c" if cfg.startswith("mac") else "elf.c", cfg)
        try:
            if len(rs) != 1:
                raise BadCode("%d outcomes" % len(rs))
            f = File(rs[0][1], k)
            if f.fds != {fd}:
                raise BadCode("written to %s" % sorted(map(fmt, f.fds)))
            (macho if cfg.startswith("mac") else elf)(f, 32 if cfg.startswith("i386") else 64)
            msg = None
        except BadCode as e:
            msg = str(e)
        r.ob("file", msg is None, key, where, "with %s of code: %s" % (key, msg), {"config": cfg})
    header_any_size(r, g, cfg)
    r.use(g.u, g.it.funcs_seen)


def header_any_size(r, g, cfg):
    """Every size: the headers with an unknown code size, compared field by field."""
    n = ("v", "code size")
    fs = [f for f in g.u.funcs if f.startswith("write_") and not g.u.funcs[f].decl.type.args and f in reach(g.u, "generate_exe")]
    where = "%s [%s]" % ("mach-o.c" if cfg.startswith("mac") else "elf.c", cfg)
    for f in fs:
        if any(f in reach(g.u, o) for o in fs if o != f):
            continue
        st = g.st.copy()
        st.g["output_fd"] = ("v", "output descriptor")
        st.g["code_alloc"] = n
        st.cons[((n, 1),)] = Dom(1, 500000)
        rs = g.it.call(f, [], st)
        bad = None
        if len(rs) != 1:
            bad = "the header depends on the size in another way than by value"
        else:
            out = [bits(e[2], 8) for e in rs[0][1].events() if e[0] == "out"]
            i = 0
            while i < len(out):
                if all(is_int(b) for b in out[i]):
                    i += 1
                    continue
                v = field([tuple(b) if not all(is_int(x) for x in b) else sum(x << j for j, x in enumerate(b)) for b in out[i:i + 4]])
                d = t_add(v, n, -1)
                if not is_int(d):
                    bad = "a field depends on the code size as %s" % fmt(v)
                    break
                i += 4
        r.ob("any size", bad is None, f, where + ": " + f, "%s: %s" % (f, bad), {"config": cfg})


def reach(u, f):
    from frontend import walk
    from pycparser import c_ast
    seen, work = set(), [f]
    while work:
        x = work.pop()
        if x not in u.funcs:
            continue
        for n in walk(u.funcs[x]):
            if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID) and n.name.name not in seen:
                seen.add(n.name.name)
                work.append(n.name.name)
    return seen


def code_at(f, off):
    for i in range(f.k):
        if off + i >= len(f.bytes):
            raise BadCode("only %d of the code bytes are written" % i)
        b = f.bytes[off + i]
        if is_int(b) or tuple(b) != tuple(bits(("v", "byte%d" % i), 8)):
            raise BadCode("byte %d of the code is not at offset %d of the file" % (i, off + i))


def need(ok, msg):
    if not ok:
        raise BadCode(msg)


def elf(f, b):
    w = b // 8
    need(f.n(0, 4) == 0x464C457F, "no ELF magic number")
    need(f.n(4, 1) == (1 if b == 32 else 2), "wrong ELF class")
    need(f.n(5, 1) == 1 and f.n(6, 1) == 1, "wrong byte order or version")
    need(f.n(16, 2) == 2, "not an executable file")
    need(f.n(18, 2) == (3 if b == 32 else 62), "wrong machine")
    need(f.n(20, 4) == 1, "wrong version")
    entry, phoff, shoff = f.n(24, w), f.n(24 + w, w), f.n(24 + 2 * w, w)
    o = 24 + 3 * w
    eh, pes, pn, ses, sn = f.n(o + 4, 2), f.n(o + 6, 2), f.n(o + 8, 2), f.n(o + 10, 2), f.n(o + 12, 2)
    need(eh == (52 if b == 32 else 64), "e_ehsize is %d" % eh)
    need(pes == (32 if b == 32 else 56), "e_phentsize is %d" % pes)
    need(sn == 0, "there are no section headers")
    need(pn >= 1 and phoff >= eh, "no program header")
    hit = False
    for i in range(pn):
        p = phoff + i * pes
        if f.n(p, 4) != 1:
            continue
        if b == 32:
            off, va, fsz, msz, fl, al = [f.n(p + x, 4) for x in (4, 8, 16, 20, 24, 28)]
        else:
            fl = f.n(p + 4, 4)
            off, va, fsz, msz, al = [f.n(p + x, 8) for x in (8, 16, 32, 40, 48)]
        need(al in (0, 1) or al & (al - 1) == 0 and va % al == off % al, "segment address and offset do not agree")
        need(va % 4096 == off % 4096, "segment address and offset do not agree on a page")
        need(off + fsz <= len(f.bytes), "the segment reaches %d bytes past the end of the file" % (off + fsz - len(f.bytes)))
        need(msz >= fsz, "the segment is smaller in memory than in the file")
        need(va >= 0x10000, "the segment is mapped at an address the system reserves")
        at = off + entry - va
        if va <= entry < va + msz or f.k == 0:
            hit = True
            need(fl & 5 == 5, "the code is not readable and executable")
            need(at + f.k <= off + fsz, "the last %d bytes of the code are not loaded" % (at + f.k - off - fsz))
            need(at >= phoff + pn * pes, "the entry point is inside the headers")
            code_at(f, at)
    need(hit, "the entry point is not in a loaded segment")


def macho(f, b):
    need(f.n(0, 4) == 0xFEEDFACF and f.n(4, 4) == 0x1000007 and f.n(12, 4) == 2, "not an x86-64 Mach-O executable")
    nc, size = f.n(16, 4), f.n(20, 4)
    p, entry, segs = 32, None, []
    for i in range(nc):
        cmd, sz = f.n(p, 4), f.n(p + 4, 4)
        need(sz >= 8 and sz % 8 == 0, "load command %d has size %d" % (i, sz))
        if cmd == 0x19:
            va, vs, fo, fs = [f.n(p + 24 + 8 * j, 8) for j in range(4)]
            need(sz == 72 + 80 * f.n(p + 64, 4), "the segment command has size %d" % sz)
            segs.append((va, vs, fo, fs, f.n(p + 60, 4)))
        elif cmd == 5:
            need(f.n(p + 8, 4) == 4 and f.n(p + 12, 4) == 42 and sz == 16 + 4 * 42, "wrong thread state")
            entry = f.n(p + 16 + 8 * 16, 8)
        p += sz
    need(p == 32 + size, "the load commands take %d bytes, the header says %d" % (p - 32, size))
    need(entry is not None, "no entry point")
    need(len(f.bytes) >= 4096, "the file is smaller than a page")
    hit = False
    for va, vs, fo, fs, prot in segs:
        need(fo + fs <= len(f.bytes), "a segment reaches past the end of the file")
        need(vs >= fs, "a segment is smaller in memory than in the file")
        if va <= entry < va + vs:
            hit = True
            at = fo + entry - va
            need(prot & 5 == 5, "the code is not readable and executable")
            need(at == p, "the entry point is not the first byte after the load commands")
            need(at + f.k <= fo + fs, "the last %d bytes of the code are not in the segment" % (at + f.k - fo - fs))
    need(hit or f.k == 0, "the entry point is not in a segment")
    code_at(f, p)


def run(r):
    r.rule("labels", "after any history of references and definitions every reference holds the distance to its label, and nothing else in the code changes")
    r.rule("gotos", "every goto jumps to its label and leaves the stack pointer where the label's frame has it, for frames of any depth")
    r.rule("undefined", "with the safety checks on, a label that is referenced but never defined is reported")
    r.rule("file", "the headers load all of the code, readable and executable, and the entry point is its first byte")
    r.rule("any size", "the headers depend on the code size only by adding constants to it")
    r.trusted += ["field offsets of the ELF and Mach-O formats (independent of the code)"]
    r.assumptions += ["write succeeds"]
    quick = r.tier != "thorough"
    tasks = []
    for cfg in ("i386", "x64", "mac", "i386-safe"):
        tasks.append((cfg + " labels", lambda r, cfg=cfg: labels(r, cfg, quick)))
        if cfg in ("i386", "x64"):
            tasks.append((cfg + " gotos", lambda r, cfg=cfg: gotos(r, cfg, quick)))
    for cfg in ("i386", "x64", "mac"):
        tasks.append((cfg + " file", lambda r, cfg=cfg: files(r, cfg, quick)))
    r.parallel(tasks)
    r.expect("gotos", 80)
    r.expect("labels", 300)
    r.expect("undefined", 100)
    r.expect("file", 60)
