"""Instruction encodings: decode(emit(op, operands)) == (op, operands)."""
from frontend import unit, Broken, loc
from native import *
from x86dec import BadCode
import itertools

CC_NAMES = {"EQ": "e", "NE": "ne", "LT": "l", "LT_U": "b", "GE": "ge", "GE_U": "ae",
            "LE": "le", "LE_U": "be", "GT": "g", "GT_U": "a"}
IMM = ("v", "imm")
OFF = ("v", "off")


def one(u, r, fn, args, expect, key, allow_many=False):
    """expect: function(list of decoded instructions without positions) -> None | message"""
    f = u.funcs[fn]
    try:
        frags, it = gen(u, fn, args)
        r.use(u, it.funcs_seen)
        if len(frags) < 1:
            msg = "emits nothing (every path ends in a fatal error)"
        else:
            msg = None
            for fr in frags:
                ins = [i[2:] for i in fr.decode(mode(u))]
                msg = expect(ins, fr)
                if msg:
                    break
    except BadCode as e:
        msg = str(e)
    ok = msg is None
    r.ob("encoding", ok, "%s:%s" % (u.name, fn), loc(f),
         "%s(%s) does not encode its instruction: %s" % (fn, ", ".join(map(str, args)), msg),
         {"config": u.name, "encoder": fn, "operands": [str(a) for a in args]})
    return ok


def seq(*want):
    want = [tuple(w) for w in want]

    def chk(ins, fr):
        if ins != want:
            return "decodes as %r, expected %r" % (ins, want)
        return None
    return chk


def final(u, want, keep_flags=False, clob=()):
    """want: dict reg -> term on exit, everything else but `clob` unchanged."""
    def chk(ins, fr):
        mach = Machine(fr.decode(mode(u)), fr.labels, mode(u), fr.n)
        outs = mach.run()
        for kind, m in outs:
            if kind != "end":
                return "control leaves the instruction sequence (%s)" % kind
            base = M()
            for i in range(16):
                w = want.get(i, base.r[i])
                if i in clob and i not in want:
                    continue
                if m.r[i] != w:
                    return "leaves %s = %r, expected %r" % (REGS[i], m.r[i], w)
            if m.mem and any(is_stack(a) and False for a, _ in m.mem):
                return "stack"
        return None
    return chk


def run(r):
    r.rule("encoding", "for every operand in the encoder's domain, the bytes stored in the code buffer decode (independent SDM decoder) to exactly the named instruction with those operands")
    r.rule("condition", "each condition constant, emitted through the conditional jump encoder, decodes to the corresponding condition")
    r.rule("immediates", "32/64-bit fields hold the little-endian two's complement (sign-extended) value for every value of the symbolic operand")
    r.trusted.append("x86 decoder lib/x86dec.py (written from the Intel SDM opcode tables)")
    for cfg in ("i386", "x64", "mac"):
        u = unit(cfg)
        W = word(u)
        regs = list(range(8)) if W == 4 else list(range(16))
        few = regs
        have = 0
        rr = {"add_reg_reg": "add", "or_reg_reg": "or", "and_reg_reg": "and", "sub_reg_reg": "sub",
              "xor_reg_reg": "xor", "cmp_reg_reg": "cmp", "mov_reg_reg": "mov"}
        u.require("push_reg", "pop_reg", "mov_reg_imm", "add_reg_imm", "jump", "jump_cond", "call", "ret", *rr)
        for fn, mn in rr.items():
            for d, s in itertools.product(few, few):
                if not one(u, r, fn, [d, s], seq((mn, d, ("r", s), W)), fn):
                    break
        for fn in ("imul_reg_reg", "mul_reg_reg"):
            u.require(fn)
            for d, s in itertools.product(few, few):
                if not one(u, r, fn, [d, s], seq(("imul", d, ("r", s), W)), fn):
                    break
        for d in regs:
            one(u, r, "mov_reg_imm", [d, IMM], seq(("mov", d, ("i", IMM), W)), d)
            one(u, r, "add_reg_imm", [d, IMM], seq(("add", d, ("i", IMM), W)), d)
            one(u, r, "add_reg_lbl", [d, ("v", "LBL")], lambda ins, fr, d=d: None if len(ins) == 1 and ins[0][:2] == ("add", d) and ins[0][2][1][0] == "rel32" and ins[0][3] == W else "decodes as %r" % ins, d)
        for d in range(8):
            one(u, r, "push_reg", [d], seq(("push", d)), d)
            one(u, r, "pop_reg", [d], seq(("pop", d)), d)
        # the push/pop encoders only support the low registers: callers must respect it
        limited = {"push_reg": {0: 8}, "pop_reg": {0: 8}, "mov_mem8_reg": {0: 8, 2: 4}, "mov_mem16_reg": {0: 8, 2: 8},
                   "mov_reg_mem32": {0: 8, 1: 8} if W == 8 else {}, "mov_mem32_reg": {0: 8, 2: 8} if W == 8 else {}}
        for fn, lim in limited.items():
            for caller, node in u.callsites.get(fn, []):
              for ix, top in lim.items():
                a = node.args.exprs[ix]
                v = u.const_eval(a)
                bad = v is not None and not (0 <= v < top)
                r.ob("operand-domain", not bad, "%s:%s-operand:%s" % (cfg, fn, caller), loc(node),
                     "%s called with register %s that its encoding cannot express" % (fn, v))
        # memory moves
        stores = {"mov_mem8_reg": 1, "mov_mem16_reg": 2, "mov_mem32_reg": 4}
        loads = {"mov_reg_mem8": (1, "zx"), "mov_reg_mem16": (2, "zx"), "mov_reg_mem32": (4, "none" if W == 4 else "zx"),
                 "mov_reg_mem8_sign_ext": (1, "sx"), "mov_reg_mem16_sign_ext": (2, "sx")}
        if W == 8:
            stores["mov_mem64_reg"] = 8
            loads["mov_reg_mem64"] = (8, "none")
            loads["mov_reg_mem32_sign_ext"] = (4, "sx")
        for fn, w in stores.items():
            u.require(fn)
            rs = regs if w == W else range(8)   # narrow moves carry no REX prefix
            srcs = [AX, CX, DX, BX] if w == 1 else rs
            for base, src in itertools.product(rs, srcs):
                if not one(u, r, fn, [base, OFF, src], seq(("store", base, OFF, src, w)), fn):
                    break
        for fn, (w, ext) in loads.items():
            u.require(fn)
            rs = range(8) if (w == 4 and ext == "zx") else regs
            for base, dst in itertools.product(rs, rs):
                if not one(u, r, fn, [dst, base, OFF], seq(("load", dst, base, OFF, w, ext)), fn):
                    break
        if W == 8 and "mov_reg_large_imm" in u.funcs:
            o = ("v", "obj")

            def neg(st):
                st.assume("<=", o, 0)

            def pos(st):
                st.assume(">", o, 0)

            for d in regs:
                for nm, pre in (("small", neg), ("large", pos)):
                    try:
                        frags, it = gen(u, "mov_reg_large_imm", [d, o], pre=pre)
                        r.use(u, it.funcs_seen)
                        msg = None if frags else "emits nothing"
                        for fr in frags:
                            ins = [i[2:] for i in fr.decode(64)]
                            lo = fr.st.mem.get(("m", t_add(("arr", "heap"), o)))
                            hi = fr.st.mem.get(("m", t_add(("arr", "heap"), t_add(o, 1))))
                            want = t_scale(o, -1) if nm == "small" else ("o", "pair", lo, hi)
                            if ins != [("mov", d, ("i", want), 8)]:
                                msg = "decodes as %r, expected the literal's value %r" % (ins, want)
                    except BadCode as e:
                        msg = str(e)
                    r.ob("immediates", msg is None, "%s:mov_reg_large_imm:%s" % (cfg, nm), loc(u.funcs["mov_reg_large_imm"]),
                         "mov_reg_large_imm(%s) %s" % (d, msg), {"config": cfg, "form": nm, "reg": d})
        # division family, shifts: composite, judged by final machine state
        R0 = M().r
        for fn, opn, which in (("idiv_reg_reg", "/", 0), ("irem_reg_reg", "%", 0), ("div_reg_reg", "u/", 1), ("rem_reg_reg", "u%", 1)):
            u.require(fn)
            for d, s in itertools.product(range(8), range(8)):
                if s in (AX, DX, SP) or d == SP:
                    continue
                val = ("o", opn, R0[d], R0[s])
                one(u, r, fn, [d, s], final(u, {d: val}, clob=(AX, DX)), fn)
        for fn, opn in (("s_l_reg_reg", "<<"), ("sar_reg_reg", ">>"), ("shr_reg_reg", "u>>")):
            u.require(fn)
            for d, s in itertools.product(range(8), range(8)):
                if d in (CX, SP) or s == SP:
                    continue
                one(u, r, fn, [d, s], final(u, {d: ("o", opn, R0[d], R0[s])}, clob=(CX,)), fn)
        # control transfer
        L = ("v", "LBL")
        one(u, r, "jump", [L], lambda ins, fr: None if len(ins) == 1 and ins[0][0] == "jmp" and ins[0][1] == ("rel32", L) else "decodes as %r" % ins, 0)
        one(u, r, "call", [L], lambda ins, fr: None if len(ins) == 1 and ins[0][0] == "call" and ins[0][1] == ("rel32", L) else "decodes as %r" % ins, 0)
        one(u, r, "jump_rel", [IMM], seq(("jmp", IMM)), 0)
        for d in range(8):
            one(u, r, "call_reg", [d], seq(("call_r", d)), d)
        one(u, r, "ret", [], seq(("ret",)), 0)
        one(u, r, "int_i8", [0x80], seq(("int", 0x80)), 0) if W == 4 else one(u, r, "syscall_", [], seq(("syscall",)), 0)
        for cn, cc in CC_NAMES.items():
            u.require_const(cn)
            try:
                frags, it = gen(u, "jump_cond", [u.consts[cn], L])
                ins = [[i[2:] for i in fr.decode(mode(u))] for fr in frags]
                ok = ins == [[("jcc", cc, ("rel32", L))]]
                msg = "decodes as %r" % ins
                if ok:
                    frags, it2 = gen(u, "jump_cond_reg_reg", [u.consts[cn], L, CX, DX])
                    ins = [[i[2:] for i in fr.decode(mode(u))] for fr in frags]
                    ok = ins == [[("cmp", CX, ("r", DX), W), ("jcc", cc, ("rel32", L))]]
                    msg = "compare-and-jump decodes as %r" % ins
                    r.use(u, it2.funcs_seen)
                r.use(u, it.funcs_seen)
            except BadCode as e:
                ok, msg = False, str(e)
            r.ob("condition", ok, "%s:cond:%s" % (cfg, cn), loc(u.globals.get(cn) or u.funcs["jump_cond"]),
                 "condition %s: %s" % (cn, msg), {"config": cfg, "condition": cn, "cc": cc})
        # address of a label: must leave exactly the label's address
        if "mov_reg_lbl" in u.funcs:
            for d in (AX, CX, DX):
                one(u, r, "mov_reg_lbl", [d, L], final(u, {d: ("v", "addr:%r" % (L,))}), 0)
    r.expect("encoding", 3000)
    r.expect("condition", 30)
