"""L03: equal spellings are one entry of the identifier table, different spellings are different entries."""
import itertools
from frontend import CONFIGS
from front import Lexer
from absint import is_int, t_add

show = repr

POOL = 4000
ENT = 500000
BUCKET = 5


class Check:
    def __init__(self, r, cfg):
        self.r, self.cfg = r, cfg
        self.L = Lexer(cfg, extra={"end_ident": lambda it, st, args, node: NotImplemented})
        self.L.it.split_loops = True
        u = self.L.u
        u.require("end_ident", "begin_string", "accum_string", "accum_string_char")
        self.ID = u.consts["IDENTIFIER"]

    def state(self):
        st = self.L.base.copy()
        del self.L.it.deaths[:]
        self.L.it.steps = 0
        return st

    def hp(self, st, a, v=None):
        k = ("m", t_add(self.L.heap, a))
        if v is None:
            x = st.mem.get(k)
            return x if x is None else st.resolve(x)
        st.mem[k] = v

    def pl(self, st, a, v=None):
        k = ("m", t_add(self.L.pool, a))
        if v is None:
            x = st.mem.get(k)
            return x if x is None else st.resolve(x)
        st.mem[k] = v

    def byte(self, st, name):
        v = ("v", name)
        st.assume(">=", v, -128)
        st.assume("<=", v, 127)
        return v

    def table(self, lens, n):
        """A bucket with entries of the given lengths and a new string of length n under construction; every byte unknown."""
        st = self.state()
        at = POOL
        prev = BUCKET
        ents = []
        for i, l in enumerate(lens):
            e = ENT + 16 * i
            self.hp(st, prev, e)
            self.hp(st, e, 0)
            self.hp(st, e + 1, at)
            self.hp(st, e + 2, ("v", "tag%d" % i))
            self.hp(st, e + 3, ("v", "info%d" % i))
            self.hp(st, e + 4, l)
            bs = []
            for j in range(l):
                b = self.byte(st, "e%d.%d" % (i, j))
                self.pl(st, at + j, b)
                bs.append(b)
            self.pl(st, at + l, 0)
            at += l + 1
            ents.append((e, bs))
            prev = e
        if not lens:
            self.hp(st, BUCKET, 0)
        new = []
        for j in range(n):
            b = self.byte(st, "n%d" % j)
            self.pl(st, at + j, b)
            new.append(b)
        st.g["string_start"] = at
        st.g["string_pool_alloc"] = at + n
        st.g["hash"] = BUCKET
        st.g["heap_alloc"] = 800000
        return st, ents, new, at

    def lookup(self, lens, n):
        st, ents, new, at = self.table(lens, n)
        # entries of a bucket are pairwise different
        before = {k: v for k, v in st.mem.items()}
        rs = self.L.it.call("end_ident", [], st)
        deaths = list(self.L.it.deaths)
        msg = None
        if deaths:
            msg = "stops with an error"
        if not rs:
            msg = "no result"
        for v, s in rs:
            v = s.resolve(v)
            hit = [i for i, (e, _) in enumerate(ents) if e == v]
            if hit:
                i = hit[0]
                e, bs = ents[i]
                if len(bs) != n:
                    msg = "a string of %d characters is taken for an entry of %d" % (n, len(bs))
                elif not all(s.compare("==", a, b) is True for a, b in zip(bs, new)):
                    msg = "a string is taken for an entry with other characters"
                elif s.resolve(s.g["string_pool_alloc"]) != at:
                    msg = "the string found is not released"
                changed = [k for k in before if s.mem.get(k) != before[k] and not (k[0] == "m" and self.offset(k, self.L.pool) is not None and self.offset(k, self.L.pool) >= at)]
                if changed:
                    msg = "looking up an entry changes the table"
                continue
            for e, bs in ents:
                if len(bs) == n and not any(s.compare("==", a, b) is False for a, b in zip(bs, new)):
                    msg = "a string gets a new entry although an entry with the same %d characters may exist" % n
            if v != 800000:
                msg = "the new entry is %s, not a newly allocated object" % show(v)
                continue
            al = s.resolve(s.g["heap_alloc"])
            if not is_int(al) or al < v + 5:
                msg = "the new entry's object has less than five words"
            if s.resolve(s.g["string_pool_alloc"]) != at + n + 1:
                msg = "the string of the new entry and its terminator are not kept"
            if self.pl(s, at + n) != 0:
                msg = "the string of the new entry is not terminated"
            if [self.pl(s, at + j) for j in range(n)] != [s.resolve(b) for b in new]:
                msg = "the string of the new entry is changed"
            want = {0: 0, 1: at, 2: self.ID, 3: 0, 4: n}
            for o, w in want.items():
                if self.hp(s, v + o) != w:
                    msg = "word %d of the new entry is %s instead of %s" % (o, show(self.hp(s, v + o)), w)
            last = ents[-1][0] if ents else BUCKET
            if self.hp(s, last) != v:
                msg = "the new entry is not linked to its bucket"
            for k in before:
                o = self.offset(k, self.L.heap)
                if o is not None and o != last and s.mem.get(k) != before[k]:
                    msg = "making an entry changes another one (word %d)" % o
                o = self.offset(k, self.L.pool)
                if o is not None and o < at and s.mem.get(k) != before[k]:
                    msg = "making an entry changes the string of another one"
        self.r.ob("lookup", msg is None, "%d characters in a bucket of %s" % (n, list(lens)), "end_ident [%s]" % self.cfg,
                  msg and "%d characters looked up in a bucket with entries of %s characters: %s" % (n, list(lens), msg) or "",
                  sample="string of %d unknown bytes against entries of %s unknown bytes: %d paths" % (n, list(lens), len(rs)))

    def offset(self, k, base):
        if k[0] != "m":
            return None
        d = t_add(k[1], base, -1)
        return d if is_int(d) else None

    def accumulate(self):
        for f in ("accum_string", "accum_string_char"):
            for c in [-128, -1, 0, 1, 10, 65, 97, 122, 127] + ([128, 200, 255] if f == "accum_string" else []):
                if f == "accum_string" and c < 0:
                    continue
                bad = None
                for h in range(0, 1009):
                    st = self.state()
                    st.g["string_pool_alloc"] = POOL
                    st.g["string_start"] = POOL - 3
                    st.g["hash"] = h
                    if f == "accum_string":
                        st.g["ch"] = c
                        rs = self.L.it.call(f, [], st)
                    else:
                        rs = self.L.it.call(f, [c], st)
                    if len(rs) != 1 or self.L.it.deaths:
                        bad = "%d outcomes" % len(rs)
                        break
                    s = rs[0][1]
                    nh = s.resolve(s.g["hash"])
                    if not is_int(nh) or not 0 <= nh < 1009:
                        bad = "from hash %d the hash becomes %s, outside the table" % (h, show(nh))
                    if self.pl(s, POOL) != c:
                        bad = "the character stored is %s" % show(self.pl(s, POOL))
                    if s.g["string_pool_alloc"] != POOL + 1 or s.g["string_start"] != POOL - 3:
                        bad = "the string does not grow by one character"
                    if f == "accum_string_char" and c >= 0:
                        t = self.state()
                        t.g.update({"string_pool_alloc": POOL, "hash": h, "ch": c})
                        o = self.L.it.call("accum_string", [], t)
                        if len(o) != 1 or o[0][1].resolve(o[0][1].g["hash"]) != nh:
                            bad = "the two functions that append a character hash it differently"
                    if bad:
                        break
                self.r.ob("append", bad is None, "%s %d" % (f, c), "%s [%s]" % (f, self.cfg), bad and "%s of character %d: %s" % (f, c, bad) or "", sample="%s(%d) from every hash value" % (f, c))
        st = self.state()
        st.g["string_pool_alloc"] = POOL
        st.g["hash"] = 77
        rs = self.L.it.call("begin_string", [], st)
        ok = len(rs) == 1 and rs[0][1].g["string_start"] == POOL and rs[0][1].g["string_pool_alloc"] == POOL and rs[0][1].g["hash"] == 0
        self.r.ob("append", ok, "begin_string", "begin_string [%s]" % self.cfg, "" if ok else "a string does not start empty at the end of the pool", sample="begin_string")

    def make(self, s, st):
        it = self.L.it
        rs = it.call("begin_string", [], st)
        st = rs[0][1]
        for c in s:
            st = it.call("accum_string_char", [c], st)[0][1]
        h = st.g["hash"]
        rs = it.call("end_ident", [], st)
        if len(rs) != 1:
            return None, st, h
        return rs[0][1].resolve(rs[0][0]), rs[0][1], h

    def sequences(self, deep):
        """Histories of lookups, including strings of one bucket."""
        base = [b"", b"\0", b"a", b"b", b"a\0", b"a\0b", b"a\0c", b"ab", b"abc", b"ba", b"\0a", b"int", b"inta", b"in"]
        buckets = {}
        for s in itertools.product(range(97, 123), repeat=2):
            v, st, h = self.make(list(s), self.state())
            buckets.setdefault(h, []).append(bytes(s))
        pairs = [b[:4] for b in sorted(buckets.values(), key=len, reverse=True) if len(b) > 1][:6]
        # longer strings falling into the same bucket as a short one
        sets = [tuple(p) for p in itertools.combinations(base, 2)] + [tuple(p) for p in pairs] + [tuple(base), tuple(reversed(base))]
        if deep:
            sets += list(itertools.permutations(base[:8], 3))
        for ss in sets:
            st = self.state()
            ids = {}
            msg = None
            for rnd in range(2):
                for s in ss:
                    v, st, h = self.make([c - 256 if c > 127 else c for c in s], st)
                    if v is None:
                        msg = "%r has several outcomes" % s
                        break
                    if ids.setdefault(s, v) != v:
                        msg = "%r is entry %s, then entry %s" % (s, ids[s], v)
                    if self.L.spelling(st, v) != s.decode("latin1"):
                        msg = "the entry of %r is spelled %r" % (s, self.L.spelling(st, v))
            if msg is None and len(set(ids.values())) != len(ids):
                msg = "different strings share an entry"
            if msg is None:
                for s, v in ids.items():
                    if self.L.spelling(st, v) != s.decode("latin1"):
                        msg = "the entry of %r is spelled %r at the end" % (s, self.L.spelling(st, v))
            self.r.ob("histories", msg is None, "strings %s" % " ".join(repr(s)[1:] for s in ss[:6]), "end_ident [%s]" % self.cfg, msg or "", sample="%d strings, twice each" % len(ss))


def run_cfg(r, cfg, part, parts, deep):
    c = Check(r, cfg)
    jobs = []
    top = 3 if deep else 2
    for k in range(0, 4):
        for lens in itertools.product(range(0, top + 1), repeat=k):
            for n in range(0, top + 2):
                jobs.append((lens, n))
    for n in (5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 80) + ((100, 127, 128, 129, 200, 255, 256, 257) if deep else ()):
        jobs += [((n,), n), ((n,), n + 1), ((n + 1,), n)]
    for lens, n in jobs[part::parts]:
        c.lookup(lens, n)
    if part == 0:
        c.accumulate()
    if part == 1 % parts:
        c.sequences(deep)
    r.use(c.L.u, list(c.L.it.funcs_seen))


def run(r):
    r.rule("lookup", "against a bucket of up to three entries, and one entry of up to 80 (thorough: 257) characters, all unknown (any byte, NUL included): an entry is found exactly when length and all characters are the same, otherwise one new entry with exactly this string is linked behind the bucket; nothing else changes")
    r.rule("append", "appending a character stores it, hashes it inside the table and the same way whoever appends it")
    r.rule("histories", "any order of lookups: equal strings are one entry, different strings (prefixes, NULs, one bucket) different ones, and spellings stay")
    r.assumptions.append("the bucket's entries are reached only through its chain; characters are bytes")
    cfgs = ["sh", "x64"] if r.tier == "quick" else list(CONFIGS)
    N = 4
    r.parallel([("%s/%d" % (c, i), lambda q, c=c, i=i: run_cfg(q, c, i, N, r.tier == "thorough")) for c in cfgs for i in range(N)])
    r.expect("lookup", 100)
