"""Independent x86 / x86-64 decoder over symbolic byte streams.

The oracle side of the native-backend checks: bytes that the code generator
stores in its output buffer (terms of the abstract interpreter) are turned into
bit vectors and decoded according to the Intel SDM tables below.  Nothing here
is derived from pnut's own encoder.
"""
from frontend import Broken
from absint import is_int, lin_parts

REGS = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"] + ["r%d" % i for i in range(8, 16)]


class BadCode(Exception):
    pass


# ---- bit vectors: list of 0 | 1 | (term, i); 64 bits, i>=31 collapses to the sign bit
def abit(t, i):
    return (t, min(i, 31))


def bits(t, n=64):
    if is_int(t):
        return [(t >> i) & 1 for i in range(n)]
    if t[0] == "o":
        op = t[1]
        if op in ("&", "|", "^"):
            a, b = t[2], t[3]
            x, y = bits(a, n), bits(b, n)
            out = []
            for p, q in zip(x, y):
                if op == "&":
                    r = 0 if p == 0 or q == 0 else (p if q == 1 else q if p == 1 else p if p == q else None)
                elif op == "|":
                    r = 1 if p == 1 or q == 1 else (p if q == 0 else q if p == 0 else p if p == q else None)
                else:
                    r = p if q == 0 else q if p == 0 else (p ^ q if is_int(p) and is_int(q) else (0 if p == q else None))
                if r is None:
                    return [abit(t, i) for i in range(n)]
                out.append(r)
            return out
        if op == ">>" and is_int(t[3]):
            k = t[3]
            x = bits(t[2], n + k) if n + k <= 128 else bits(t[2], 128)
            x = x + [x[-1]] * max(0, n + k - len(x))
            return x[k:k + n]
        if op == "%" and is_int(t[3]) and t[3] > 0 and (t[3] & (t[3] - 1)) == 0:
            return [abit(t, i) for i in range(n)]
    if t[0] == "lin":
        c, d = lin_parts(t)
        if len(d) == 1:
            (a, k), = d.items()
            if k > 0 and (k & (k - 1)) == 0 and a[0] == "o" and a[1] in ("&", ">>"):
                sh = k.bit_length() - 1
                x = ([0] * sh + bits(a, n))[:n]
                y = bits(c, n)
                if all(p == 0 or q == 0 for p, q in zip(x, y)):
                    return [p if q == 0 else q for p, q in zip(x, y)]
    return [abit(t, i) for i in range(n)]


def byte_of(t):
    """A stored code byte -> int or 8-tuple of bits."""
    b = bits(t, 8)
    if all(is_int(x) for x in b):
        return sum(x << i for i, x in enumerate(b))
    return tuple(b)


def field(bs, signed=True):
    """Little-endian list of bytes -> term (sign-extended value)."""
    bb = []
    for b in bs:
        bb.extend([(b >> i) & 1 for i in range(8)] if is_int(b) else list(b))
    n = len(bb)
    if all(is_int(x) for x in bb):
        v = sum(x << i for i, x in enumerate(bb))
        if signed and v >= 1 << (n - 1):
            v -= 1 << n
        return v
    b0 = bb[0]
    if not is_int(b0) and b0[1] == 0:
        T = b0[0]
        if all(not is_int(x) and x[0] == T and x[1] == min(i, 31) for i, x in enumerate(bb)):
            return T
        if n == 64 and all(not is_int(x) and x[0] == T and x[1] == i for i, x in enumerate(bb[:32])):
            hi = field_from_bits(bb[32:])
            return ("o", "pair", T, hi)
    return ("o", "rawbits", tuple(bb))


def field_from_bits(bb):
    bs = [tuple(bb[i:i + 8]) if not all(is_int(x) for x in bb[i:i + 8]) else sum(x << j for j, x in enumerate(bb[i:i + 8]))
          for i in range(0, len(bb), 8)]
    return field(bs)


ALU = {0x01: "add", 0x09: "or", 0x21: "and", 0x29: "sub", 0x31: "xor", 0x39: "cmp", 0x85: "test", 0x89: "mov", 0x87: "xchg"}
ALU_RM = {0x03: "add", 0x0B: "or", 0x23: "and", 0x2B: "sub", 0x33: "xor", 0x3B: "cmp", 0x8B: "mov"}
GRP1 = ["add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"]
GRP2 = ["rol", "ror", "rcl", "rcr", "shl", "shr", "sal", "sar"]
GRP3 = ["test", None, "not", "neg", "mul", "imul1", "div", "idiv"]
CC = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"]


class Decoder:
    def __init__(self, code, mode):
        """code: list of ints / bit tuples / ("pseudo", ...) / ("rel32", lbl, ...) (4 cells, first carries it)."""
        self.code, self.mode = code, mode
        self.i = 0

    def next(self):
        if self.i >= len(self.code):
            raise BadCode("truncated instruction")
        b = self.code[self.i]
        self.i += 1
        return b

    def opbyte(self):
        b = self.next()
        if not is_int(b):
            raise BadCode("opcode/modrm byte is not constant: %r" % (b,))
        return b

    def imm(self, n):
        if self.i < len(self.code) and isinstance(self.code[self.i], tuple) and self.code[self.i][0] == "rel32":
            if n != 4:
                raise BadCode("label reference where a %d-byte field is expected" % n)
            r = self.code[self.i]
            self.i += 4
            return r
        bs = []
        for _ in range(n):
            b = self.next()
            if isinstance(b, tuple) and b and b[0] in ("rel32", "pseudo"):
                raise BadCode("field overlaps %r" % (b,))
            bs.append(b)
        return field(bs)

    def modrm(self, rex, width):
        m = self.opbyte()
        mod, reg, rm = m >> 6, ((m >> 3) & 7) | ((rex >> 2 & 1) << 3), m & 7
        b = rex & 1
        if mod == 3:
            return reg, ("r", rm | (b << 3))
        if rm == 4:
            sib = self.opbyte()
            if (sib >> 3) & 7 != 4 or (rex >> 1) & 1:
                raise BadCode("indexed addressing is not expected")
            base = (sib & 7) | (b << 3)
        elif rm == 5 and mod == 0:
            raise BadCode("disp32/rip addressing is not expected")
        else:
            base = rm | (b << 3)
        if mod == 0:
            if rm == 4 and (base & 7) == 5:
                raise BadCode("SIB without base")
            disp = 0
        elif mod == 1:
            disp = self.imm(1)
        else:
            disp = self.imm(4)
        return reg, ("m", base, disp)

    def decode_one(self):
        start = self.i
        b = self.next()
        if isinstance(b, tuple):
            if b and b[0] == "pseudo":
                return (start, self.i) + b
            raise BadCode("unexpected symbolic byte %r where an opcode is expected" % (b,))
        p66 = False
        if b == 0x66:
            p66 = True
            b = self.opbyte()
        rex = 0
        if self.mode == 64 and 0x40 <= b <= 0x4F:
            rex = b & 15
            b = self.opbyte()
        W = 8 if rex & 8 else 2 if p66 else 4
        sw = self.mode // 8        # stack width
        ins = self._op(b, rex, W, sw)
        return (start, self.i) + ins

    def _op(self, b, rex, W, sw):
        if b in ALU:
            reg, rm = self.modrm(rex, W)
            name = ALU[b]
            if rm[0] == "r":
                return (name, rm[1], ("r", reg), W)
            if name == "mov":
                return ("store", rm[1], rm[2], reg, W)
            raise BadCode("%s to memory not expected" % name)
        if b in ALU_RM:
            reg, rm = self.modrm(rex, W)
            name = ALU_RM[b]
            if rm[0] == "r":
                return (name, reg, ("r", rm[1]), W)
            if name == "mov":
                return ("load", reg, rm[1], rm[2], W, "none" if W == self.mode // 8 else "zx" if W == 4 else "partial")
            raise BadCode("%s from memory not expected" % name)
        if b == 0x88:
            reg, rm = self.modrm(rex, 1)
            if rm[0] != "m":
                raise BadCode("byte register move")
            if reg >= 4 and rex == 0:
                return ("store_highbyte", rm[1], rm[2], reg, 1)
            return ("store", rm[1], rm[2], reg, 1)
        if b == 0x63 and self.mode == 64:
            reg, rm = self.modrm(rex, W)
            if rm[0] == "m":
                return ("load", reg, rm[1], rm[2], 4, "sx" if W == 8 else "zx")
            return ("movsxd", reg, rm, W)
        if b == 0x0F:
            b2 = self.opbyte()
            if b2 in (0xB6, 0xB7, 0xBE, 0xBF):
                reg, rm = self.modrm(rex, W)
                w = 1 if b2 in (0xB6, 0xBE) else 2
                ext = "zx" if b2 < 0xB8 else "sx"
                if W != self.mode // 8 and ext == "sx":
                    ext = "sx32"
                if rm[0] == "m":
                    return ("load", reg, rm[1], rm[2], w, ext)
                return ("movx", reg, rm, w, ext)
            if b2 == 0xAF:
                reg, rm = self.modrm(rex, W)
                if rm[0] != "r":
                    raise BadCode("imul with memory")
                return ("imul", reg, ("r", rm[1]), W)
            if 0x80 <= b2 <= 0x8F:
                return ("jcc", CC[b2 - 0x80], self.imm(4))
            if b2 == 0x05 and self.mode == 64:
                return ("syscall",)
            raise BadCode("unknown opcode 0f %02x" % b2)
        if b in (0x81, 0x83):
            digit, rm = self.modrm(rex, W)
            digit &= 7
            v = self.imm(1 if b == 0x83 else (2 if W == 2 else 4))
            if rm[0] != "r":
                raise BadCode("group1 to memory")
            return (GRP1[digit], rm[1], ("i", v), W)
        if b in (0xD3, 0xC1, 0xD1):
            digit, rm = self.modrm(rex, W)
            digit &= 7
            cnt = ("cl",) if b == 0xD3 else ("i", 1) if b == 0xD1 else ("i", self.imm(1))
            if rm[0] != "r":
                raise BadCode("shift of memory")
            return (GRP2[digit], rm[1], cnt, W)
        if b == 0xF7:
            digit, rm = self.modrm(rex, W)
            digit &= 7
            if rm[0] != "r" or GRP3[digit] is None or digit == 0:
                raise BadCode("unexpected f7 form")
            return (GRP3[digit], rm[1], W)
        if b == 0xFF:
            digit, rm = self.modrm(rex, W)
            digit &= 7
            if rm[0] != "r":
                raise BadCode("ff with memory operand")
            if digit == 2: return ("call_r", rm[1])
            if digit == 4: return ("jmp_r", rm[1])
            if digit == 0: return ("add", rm[1], ("i", 1), W)
            if digit == 1: return ("sub", rm[1], ("i", 1), W)
            if digit == 6: return ("push", rm[1])
            raise BadCode("unexpected ff /%d" % digit)
        if 0x50 <= b <= 0x57:
            return ("push", (b - 0x50) | ((rex & 1) << 3))
        if 0x58 <= b <= 0x5F:
            return ("pop", (b - 0x58) | ((rex & 1) << 3))
        if 0xB8 <= b <= 0xBF:
            r = (b - 0xB8) | ((rex & 1) << 3)
            v = self.imm(8 if W == 8 else 4 if W == 4 else 2)
            if W == 4 and self.mode == 64:
                return ("mov_zx", r, ("i", v), 4)
            return ("mov", r, ("i", v), W)
        if b == 0xC7:
            digit, rm = self.modrm(rex, W)
            v = self.imm(4)
            if rm[0] != "r":
                raise BadCode("c7 to memory")
            return ("mov", rm[1], ("i", v), W)
        if b == 0x99: return ("cdq", W)
        if b == 0xC3: return ("ret",)
        if b == 0xE9: return ("jmp", self.imm(4))
        if b == 0xE8: return ("call", self.imm(4))
        if b == 0xEB: return ("jmp", self.imm(1))
        if 0x70 <= b <= 0x7F: return ("jcc", CC[b - 0x70], self.imm(1))
        if b == 0xCD: return ("int", self.imm(1) & 0xFF)
        if b == 0x90: return ("nop",)
        if b == 0x68: return ("push_i", self.imm(4))
        if b == 0x6A: return ("push_i", self.imm(1))
        raise BadCode("unknown opcode %02x" % b)

    def all(self):
        out = []
        while self.i < len(self.code):
            out.append(self.decode_one())
        return out
