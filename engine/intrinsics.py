"""Assumed contracts of LLVM intrinsics and of the two external symbols (memcmp, the panic entry).
The AES instruction contracts are the vendors' published semantics, written on FIPS-197 primitives:
 x86   : Intel SDM AESENC/AESENCLAST/AESDEC/AESDECLAST/AESIMC/AESKEYGENASSIST (VEX.256/512: per 128-bit lane)
 Arm   : Arm ARM AESE/AESD/AESMC/AESIMC
 RISC-V: Scalar Cryptography extension v1.0.1, aes64* and aes32* (SAIL definitions)
These are the trusted base; `selftest.py` compares them with hardware / qemu on every thorough run."""
import re
from forms import *
from forms import _conj
from fips197 import FORM, FormOps, RCON
import sym
from sym import UNDEF, Ptr, Lin, PhiV, LinCond, NeedFork, PathEnd, signed, icmp_int
from llir import ity

O = FormOps


def to_bytes(v, n):
    """word (int/tuple) of 8n bits -> list of n bytes (tuples), least significant first"""
    b = bits_of(v, 8 * n)
    return [tuple(b[8 * i:8 * i + 8]) for i in range(n)]


def from_bytes(bs):
    out = []
    for b in bs:
        out += b
    return word(out)


def vec_bytes(v, ew):
    """LE vector of ew-bit elements -> bytes"""
    out = []
    for x in v:
        if x is UNDEF:
            raise Unsupported("undefined vector lane")
        out += to_bytes(x, ew // 8)
    return out


def vec_from(bs, ew):
    k = ew // 8
    return [from_bytes(bs[i:i + k]) for i in range(0, len(bs), k)]


# ---- x86 -------------------------------------------------------------------
def x86_round(fn):
    def h(E, st, args):
        (t, a), (_, k) = args
        ew = t[2][1]
        s, r = vec_bytes(a, ew), vec_bytes(k, ew)
        out = []
        for i in range(0, len(s), 16):
            out += fn(s[i:i + 16], r[i:i + 16])
        return vec_from(out, ew)
    return h


def x86_imc(E, st, args):
    (t, a), = args
    return vec_from(FORM.inv_mix_columns(vec_bytes(a, t[2][1])), t[2][1])


def x86_keygenassist(E, st, args):
    (t, a), (_, imm) = args
    b = vec_bytes(a, t[2][1])
    x1, x3 = b[4:8], b[12:16]
    rc = [O.const(imm & 255), O.zero, O.zero, O.zero]

    def sw(w): return [O.sbox(x) for x in w]
    def rot(w): return w[1:] + w[:1]
    def xr(w): return [O.xor(p, q) for p, q in zip(w, rc)]
    out = sw(x1) + xr(rot(sw(x1))) + sw(x3) + xr(rot(sw(x3)))
    return vec_from(out, t[2][1])


# ---- Arm -------------------------------------------------------------------
def arm_aese(E, st, args):
    (t, a), (_, k) = args
    s = FORM.add(vec_bytes(a, 8), vec_bytes(k, 8))
    return vec_from(FORM.sub_bytes(FORM.shift_rows(s)), 8)


def arm_aesd(E, st, args):
    (t, a), (_, k) = args
    s = FORM.add(vec_bytes(a, 8), vec_bytes(k, 8))
    return vec_from(FORM.inv_sub_bytes(FORM.inv_shift_rows(s)), 8)


def arm_mc(E, st, args):
    return vec_from(FORM.mix_columns(vec_bytes(args[0][1], 8)), 8)


def arm_imc(E, st, args):
    return vec_from(FORM.inv_mix_columns(vec_bytes(args[0][1], 8)), 8)


# ---- RISC-V ------------------------------------------------------------------
def _col(fn, col):
    z = [O.zero] * 12
    return fn(list(col) + z)[:4]


def rv64(kind):
    def h(E, st, args):
        s = to_bytes(args[0][1], 8) + to_bytes(args[1][1], 8)
        if kind[0] == 'e':
            r = FORM.sub_bytes(FORM.shift_rows(s))[:8]
            if kind == 'esm':
                r = FORM.mix_columns(r + [O.zero] * 8)[:8]
        else:
            r = FORM.inv_sub_bytes(FORM.inv_shift_rows(s))[:8]
            if kind == 'dsm':
                r = FORM.inv_mix_columns(r + [O.zero] * 8)[:8]
        return from_bytes(r)
    return h


def rv64_im(E, st, args):
    s = to_bytes(args[0][1], 8)
    return from_bytes(FORM.inv_mix_columns(s + [O.zero] * 8)[:8])


def rv64_ks1i(E, st, args):
    s = to_bytes(args[0][1], 8)
    rnum = args[1][1]
    if not isinstance(rnum, int) or rnum > 10:
        E.fail(st, 'ub', "aes64ks1i round number %r" % (rnum,))
    w = s[4:8]
    rc = 0
    if rnum != 10:
        w = w[1:] + w[:1]
        rc = RCON[rnum]
    w = [O.sbox(b) for b in w]
    w[0] = O.xor(w[0], O.const(rc))
    return from_bytes(w + w)


def rv64_ks2(E, st, args):
    a, b = to_bytes(args[0][1], 8), to_bytes(args[1][1], 8)
    w0 = [O.xor(x, y) for x, y in zip(a[4:], b[:4])]
    w1 = [O.xor(O.xor(x, y), z) for x, y, z in zip(a[4:], b[:4], b[4:])]
    return from_bytes(w0 + w1)


def rv32(kind):
    def h(E, st, args):
        rs1, rs2 = to_bytes(args[0][1], 4), to_bytes(args[1][1], 4)
        bs = args[2][1]
        if not isinstance(bs, int) or bs > 3:
            E.fail(st, 'ub', "aes32 byte select %r" % (bs,))
        b = rs2[bs]
        x = O.sbox(b) if kind[0] == 'e' else O.inv(b)
        z = O.zero
        if kind == 'esmi':
            w = [O.mul(2, x), x, x, O.mul(3, x)]
        elif kind == 'dsmi':
            w = [O.mul(14, x), O.mul(9, x), O.mul(13, x), O.mul(11, x)]
        else:
            w = [x, z, z, z]
        w = w[-bs:] + w[:-bs] if bs else w          # rotate left by 8*bs bits
        return from_bytes([O.xor(p, q) for p, q in zip(w, rs1)])
    return h


# ---- generic -------------------------------------------------------------------
def bswap(E, st, args):
    (t, v), = args
    v = E.force(st, v)
    return from_bytes(to_bytes(v, t[1] // 8)[::-1])


def fsh(right):
    def h(E, st, args):
        (t, a), (_, b), (_, s) = args
        n = t[1]
        s = E.force(st, s)
        if not isinstance(s, int):
            raise Unsupported("symbolic funnel shift")
        s %= n
        x = list(bits_of(b, n)) + list(bits_of(a, n))     # low .. high
        return word(x[s:s + n]) if right else (word(x[n - s:2 * n - s]) if s else a)
    return h


def _count(fnint):
    def h(E, st, args):
        t, v = args[0]
        v = E.force(st, v)
        n = t[1]
        if v.__class__ is int:
            return fnint(v, n)
        if v.__class__ is not tuple:
            raise Unsupported("bit count of %s" % v.__class__.__name__)
        try:
            return word(lift(v, lambda x: fnint(x, n), n))
        except Unsupported:
            return wide_count(v, n, fnint)
    return h


def wide_count(v, n, fnint):
    """count over bits of many bytes: position of the first set bit, or a balanced sum"""
    if fnint(1, n) == n - 1 or fnint(1 << (n - 1), n) == n - 1:
        order = list(range(n)) if fnint(1, n) == 0 else list(range(n - 1, -1, -1))
        w = n.bit_length()
        out = [n >> j & 1 for j in range(w)]
        for pos in range(n - 1, -1, -1):        # from the last position to the first: the first one wins
            b = v[order[pos]]
            out = [fite(b, pos >> j & 1, out[j]) for j in range(w)]
    else:
        def add(a, b):
            k = max(len(a), len(b))
            a, b = list(a) + [0] * (k - len(a)), list(b) + [0] * (k - len(b))
            r, c = [], 0
            for x, y in zip(a, b):
                t = fxor(x, y)
                r.append(fxor(t, c))
                c = for_(fand(x, y), fand(t, c))
            return r + [c]
        ws = [[b] for b in v]
        while len(ws) > 1:
            ws = [add(ws[k], ws[k + 1]) if k + 1 < len(ws) else ws[k] for k in range(0, len(ws), 2)]
        out = ws[0]
    return word((list(out) + [0] * n)[:n])


def _ov(op, sgn):
    def h(E, st, args):
        (t, a), (_, b) = args
        n = t[1]
        a, b = E.force(st, a), E.force(st, b)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (signed(a, n), signed(b, n)) if sgn else (a, b)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sgn else (0, (1 << n) - 1)
            return [r & ((1 << n) - 1), 0 if lo <= r <= hi else 1]
        if (isinstance(a, Lin) or isinstance(b, Lin)) and not sgn and not isinstance(a, (tuple, Ptr)) and not isinstance(b, (tuple, Ptr)):
            if op == 'mul':
                if isinstance(a, Lin) and isinstance(b, Lin):
                    raise Unsupported("product of lengths")
                r = sym.lin_mul(a, b) if isinstance(a, Lin) else sym.lin_mul(b, a)
            else:
                r = sym.lin_add(a, b, 1 if op == 'add' else -1)
            if isinstance(r, int):
                return [r & ((1 << n) - 1), int(r != r & ((1 << n) - 1))]
            for k in range(2):
                lo, hi = LinCond('ge', r), LinCond('ge', sym.lin_add((1 << n) - 1, r, -1))
                v, w = E.implied(st, lo), E.implied(st, hi)
                if v is None or w is None:
                    raise NeedFork(lo if v is None else hi)
                if v and w:
                    return [r, k]
                r = sym.lin_add(r, 1 << n, -1 if v else 1)
            raise Unsupported("product of a length and a large number")
        if op in ('add', 'sub') and not sgn:
            x = word(tuple(bits_of(a, n)) + (0,))
            y = word(tuple(bits_of(b, n)) + (0,))
            r = bits_of(E.binop(st, op, ity(n + 1), x, y, frozenset()), n + 1)
            return [word(r[:n]), word(r[n:])]
        if op == 'mul' and not sgn:
            x = word(tuple(bits_of(a, n)) + (0,) * n)
            y = word(tuple(bits_of(b, n)) + (0,) * n)
            r = bits_of(E.binop(st, op, ity(2 * n), x, y, frozenset()), 2 * n)
            o = 0
            for z in r[n:]:
                o = for_(o, z)
            return [word(r[:n]), o if isinstance(o, int) else (o,)]
        raise Unsupported("symbolic overflow arithmetic")
    return h


def _minmax(pred):
    def h(E, st, args):
        (t, a), (_, b) = args
        if t[0] == 'v':
            return [h(E, st, [(t[2], x), (t[2], y)]) for x, y in zip(a, b)]
        c = E.icmp(st, pred, t, a, b)
        return E.select(st, ity(1), (c,) if isinstance(c, Form) else c, t, a, b)
    return h


def _reduce(op):
    def h(E, st, args):
        (t, v), = args
        acc = v[0]
        for x in v[1:]:
            acc = E.binop(st, op, t[2], acc, x, frozenset())
        return acc
    return h


def _sat(op):
    def h(E, st, args):
        (t, a), (_, b) = args
        n = t[1]
        r, o = _ov(op, False)(E, st, args)
        return E.select(st, ity(1), o, t, (1 << n) - 1 if op == 'add' else 0, r)
    return h


def _bitreverse(E, st, args):
    (t, v), = args
    return word(bits_of(E.force(st, v), t[1])[::-1])


def _abs(E, st, args):
    (t, v) = args[0]
    z = E.binop(st, 'sub', t, 0, v, frozenset())
    c = E.icmp(st, 'slt', t, v, 0)
    return E.select(st, ity(1), (c,) if isinstance(c, Form) else c, t, z, v)


AES = {
    'llvm.x86.aesni.aesenc': x86_round(FORM.enc), 'llvm.x86.aesni.aesenclast': x86_round(FORM.enc_last),
    'llvm.x86.aesni.aesdec': x86_round(FORM.dec), 'llvm.x86.aesni.aesdeclast': x86_round(FORM.dec_last),
    'llvm.x86.aesni.aesimc': x86_imc, 'llvm.x86.aesni.aeskeygenassist': x86_keygenassist,
    'aese': arm_aese, 'aesd': arm_aesd, 'aesmc': arm_mc, 'aesimc': arm_imc,
    'llvm.riscv.aes64es': rv64('es'), 'llvm.riscv.aes64esm': rv64('esm'), 'llvm.riscv.aes64ds': rv64('ds'),
    'llvm.riscv.aes64dsm': rv64('dsm'), 'llvm.riscv.aes64im': rv64_im, 'llvm.riscv.aes64ks1i': rv64_ks1i,
    'llvm.riscv.aes64ks2': rv64_ks2,
    'llvm.riscv.aes32esi': rv32('esi'), 'llvm.riscv.aes32esmi': rv32('esmi'),
    'llvm.riscv.aes32dsi': rv32('dsi'), 'llvm.riscv.aes32dsmi': rv32('dsmi'),
}
for _w in ('256', '512'):
    for _n in ('aesenc', 'aesenclast', 'aesdec', 'aesdeclast'):
        AES['llvm.x86.aesni.%s.%s' % (_n, _w)] = AES['llvm.x86.aesni.' + _n]

GENERIC = {
    'bswap': bswap, 'fshl': fsh(False), 'fshr': fsh(True), 'bitreverse': _bitreverse, 'abs': _abs,
    'ctpop': _count(lambda v, n: bin(v).count('1')),
    'cttz': _count(lambda v, n: (v & -v).bit_length() - 1 if v else n),
    'ctlz': _count(lambda v, n: n - v.bit_length()),
    'uadd.with.overflow': _ov('add', False), 'usub.with.overflow': _ov('sub', False), 'umul.with.overflow': _ov('mul', False),
    'sadd.with.overflow': _ov('add', True), 'ssub.with.overflow': _ov('sub', True), 'smul.with.overflow': _ov('mul', True),
    'umin': _minmax('ult'), 'umax': _minmax('ugt'), 'smin': _minmax('slt'), 'smax': _minmax('sgt'),
    'vector.reduce.or': _reduce('or'), 'vector.reduce.and': _reduce('and'), 'vector.reduce.xor': _reduce('xor'),
    'vector.reduce.add': _reduce('add'),
    'uadd.sat': _sat('add'), 'usub.sat': _sat('sub'),
}


class Intrinsics:
    def __init__(self):
        self.used = set()

    def conc(self, E, st, v):
        v = E.force(st, v)
        if v.__class__ is tuple:
            for b in v:
                if b.__class__ is not int:
                    r = E.implied(st, b)
                    if r is None:
                        raise NeedFork(b)
            return sum((b if b.__class__ is int else E.implied(st, b)) << i for i, b in enumerate(v))
        return v

    def intrinsic(self, E, st, name, rt, args):
        self.used.add(name)
        h = AES.get(name)
        if h is None and (name.startswith('llvm.aarch64.crypto.') or name.startswith('llvm.arm.neon.aes')):
            h = AES.get(name.split('.')[-1])
        if h is not None:
            E.obl += 1
            args = [(t, [E.force(st, x) for x in v] if isinstance(v, list) else E.force(st, v)) for t, v in args]
            return [(st, h(E, st, args))]
        b = name[5:]
        if b.startswith('memcpy') or b.startswith('memmove'):
            d, s, n = args[0][1], args[1][1], self.conc(E, st, args[2][1])
            d, s = E.force(st, d), E.force(st, s)
            if not isinstance(n, int):
                raise Unsupported("memcpy of symbolic length")
            if n:
                cells = list(E.read(st, s, n, 1))
                if b.startswith('memcpy') and isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj == s.obj and isinstance(d.off, int) and isinstance(s.off, int) and d.off != s.off and abs(d.off - s.off) < n:
                    E.fail(st, 'ub', "memcpy between overlapping ranges")
                E.write(st, d, cells, 1)
            return [(st, None)]
        if b.startswith('memset'):
            d, v, n = E.force(st, args[0][1]), E.force(st, args[1][1]), self.conc(E, st, args[2][1])
            if not isinstance(n, int):
                raise Unsupported("memset of symbolic length")
            if n:
                c = E.to_cells(v, ity(8))
                E.write(st, d, c * n, 1)
            return [(st, None)]
        if b.startswith('lifetime') or b.startswith('dbg') or b.startswith('experimental.noalias') or b.startswith('invariant') or b == 'donothing':
            return [(st, None)]
        if b == 'assume':
            E.obl += 1
            c = args[0][1]
            bad = []
            for s2, t in E.branch(st, c):
                if not t:
                    try:
                        E.fail(s2, 'ub', "violated assumption")
                    except PathEnd:
                        pass
                else:
                    bad.append((s2, None))
            return bad
        if b.startswith('expect'):
            return [(st, args[0][1])]
        if b.startswith('is.constant'):
            return [(st, 0)]
        if b == 'trap' or b == 'abort':
            E.panic(st, 'trap')
            return []
        if b.startswith('vld1') or b.startswith('arm.neon.vld1'):
            p = E.force(st, args[0][1])
            n = E.mods[0].size(rt)
            al = args[1][1] if len(args) > 1 and isinstance(args[1][1], int) else 1
            return [(st, E.from_cells(st, E.read(st, p, n, max(al, 1)), rt))]
        if b.startswith('arm.neon.vst1'):
            p = E.force(st, args[0][1])
            al = args[2][1] if len(args) > 2 and isinstance(args[2][1], int) else 1
            E.write(st, p, E.to_cells(args[1][1], args[1][0]), max(al, 1))
            return [(st, None)]
        if b.startswith('x86.sse41.ptest') or b.startswith('x86.avx.ptest') or b.startswith('x86.avx.vtest'):
            x = vec_bytes(args[0][1], args[0][0][2][1])
            y = vec_bytes(args[1][1], args[1][0][2][1])
            lits = []
            for p, q in zip(x, y):
                for i, j in zip(p, q):
                    if 'z' in b.split('ptest')[1]:
                        lits.append(fnot(fand(i, j)))
                    else:
                        lits.append(fnot(fand(fnot(i), j)))
            if 'nzc' in b:
                raise Unsupported(name)
            r = _conj(lits)
            return [(st, r if isinstance(r, int) else (r,) + (0,) * 31)]
        if b.startswith('x86.ssse3.pshuf.b') or b.startswith('x86.avx2.pshuf.b') or b.startswith('x86.avx512.pshuf.b'):
            v, mk = args[0][1], args[1][1]
            out = []
            for i, k in enumerate(mk):
                k = self.conc(E, st, k)
                out.append(0 if k & 0x80 else v[(i & ~15) + (k & 15)])
            return [(st, out)]
        if b.startswith('aarch64.neon.tbl1') or b.startswith('arm.neon.vtbl1'):
            v, mk = args[0][1], args[1][1]
            out = []
            for k in mk:
                k = self.conc(E, st, k)
                out.append(v[k] if k < len(v) else 0)
            return [(st, out)]
        if b.startswith('aarch64.neon.') and 'maxv' in b or b.startswith('aarch64.neon.umaxv'):
            (t, v), = args
            acc = v[0]
            for x in v[1:]:
                acc = _minmax('ugt')(E, st, [(t[2], acc), (t[2], x)])
            if rt != t[2]:
                acc = E.cast(st, 'zext', acc, t[2], rt, frozenset())
            return [(st, acc)]
        for k, h in GENERIC.items():
            if b.startswith(k + '.'):
                return [(st, h(E, st, args))]
        raise Unsupported("intrinsic " + name)

    def call(self, E, st, name, args):
        """external symbols"""
        if name in ('memcmp', 'bcmp'):
            self.used.add(name)
            n = self.conc(E, st, args[2])
            p, q = E.force(st, args[0]), E.force(st, args[1])
            if not isinstance(n, int):
                raise Unsupported("memcmp of symbolic length")
            a = E.read(st, p, n, 1) if n else []
            b = E.read(st, q, n, 1) if n else []
            if E.leak_on and any(x.__class__ is tuple for x in list(a) + list(b)):
                E.leak(st, "memcmp of secret data")
            lits = []
            for x, y in zip(a, b):
                if x is None or y is None:
                    E.fail(st, 'mem', "memcmp of uninitialised bytes")
                for i, j in zip(bits_of(x, 8), bits_of(y, 8)):
                    lits.append(fnot(fxor(i, j)))
            eq = _conj(lits)
            if isinstance(eq, int) and eq:
                return [(st, 0)]
            # only the zero / nonzero distinction is modelled; the sign is left out
            return [(st, word((fnot(eq),) + (0,) * 31))]
        if name.endswith('rust_begin_unwind') or 'panic_impl' in name:
            E.panic(st, 'panic')
            return []
        d = E.demangle.get(name, '')
        if sym.PANIC_RE.match(d):
            E.panic(st, d)
            return []
        raise Unsupported("external function %s %s" % (name, d))
