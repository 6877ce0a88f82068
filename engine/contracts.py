"""Top-level contracts: what each public API call must do, for all inputs.

Every contract is a function of an operations object S (symbolic forms or plain integers), so the very
same text is the postcondition of the proof and the oracle of a replay.  Blocks are lists of bytes."""
import re
from forms import *
from forms import _conj
import fips197
from fips197 import IntOps, FormOps


class SymS:
    """postconditions over forms"""
    aes = fips197.FORM
    sym = True

    @staticmethod
    def band(a, b): return tuple(fand(x, y) for x, y in zip(bits_of(a, 8), bits_of(b, 8)))
    @staticmethod
    def bor(a, b): return tuple(for_(x, y) for x, y in zip(bits_of(a, 8), bits_of(b, 8)))
    @staticmethod
    def bxor(a, b): return tuple(fxor(x, y) for x, y in zip(bits_of(a, 8), bits_of(b, 8)))
    @staticmethod
    def bnot(a): return tuple(fnot(x) for x in bits_of(a, 8))
    @staticmethod
    def const(v): return FormOps.const(v)

    @staticmethod
    def all_equal(a, b):
        lits = []
        for x, y in zip(a, b):
            for p, q in zip(bits_of(x, 8), bits_of(y, 8)):
                lits.append(fnot(fxor(p, q)))
        return _conj(lits)

    @staticmethod
    def flip(b): return fnot(b)

    @staticmethod
    def hexd(byte, hi, upper):
        nib = list(bits_of(byte, 8))[4:] if hi else list(bits_of(byte, 8))[:4]
        t = [ord(c) for c in ("0123456789ABCDEF" if upper else "0123456789abcdef")]
        return tuple(lift(nib, t, 8, ("hex", upper)))

    @staticmethod
    def bind(byte, k):
        b = bits_of(byte, 8)[k]
        return (b, 0, 0, 0, 1, 1, 0, 0)


class IntS:
    """the same, on concrete bytes"""
    aes = fips197.INT
    sym = False
    band = staticmethod(lambda a, b: a & b)
    bor = staticmethod(lambda a, b: a | b)
    bxor = staticmethod(lambda a, b: a ^ b)
    bnot = staticmethod(lambda a: a ^ 255)
    const = staticmethod(lambda v: v)
    all_equal = staticmethod(lambda a, b: int(list(a) == list(b)))
    flip = staticmethod(lambda b: b ^ 1)

    @staticmethod
    def hexd(byte, hi, upper):
        n = byte >> 4 if hi else byte & 15
        return ord(("0123456789ABCDEF" if upper else "0123456789abcdef")[n])

    @staticmethod
    def bind(byte, k): return 48 + (byte >> k & 1)


def blocks(b, n=16): return [list(b[i:i + n]) for i in range(0, len(b), n)]
def text(S, s): return [S.const(ord(c)) for c in s]


class Result:
    """out: bytes written from o; ret: integer or ('bit', b); emit: text; other bytes of o unchanged"""
    def __init__(self, out=(), ret=0, emit=()):
        self.out = list(out); self.ret = ret; self.emit = list(emit)


class Contract:
    def __init__(self, probe, nin, nout, spec, kind='plain', secret=True, doc=""):
        self.probe = probe; self.nin = nin; self.nout = nout; self.spec = spec; self.kind = kind; self.secret = secret; self.doc = doc


TABLE = {}


def add(probe, nin, nout, spec, kind='plain', secret=True, doc=""):
    TABLE[probe] = Contract(probe, nin, nout, spec, kind, secret, doc)


def per_block(f):
    """apply a one-block function to every block of equal-length operands"""
    def g(S, *ops):
        out = []
        for bs in zip(*[blocks(o) for o in ops]):
            out += f(S, *bs)
        return out
    return g


def bytewise(name):
    return lambda S, a, b: [getattr(S, name)(x, y) for x, y in zip(a, b)]


SIZES = {1: 16, 2: 32, 4: 64}
for _s, _n in SIZES.items():
    def _mk(_s=_s, _n=_n):
        def nm(x): return "%s_%d" % (x, _s)
        ident = lambda S, i: Result(i[:_n])
        for x in ("new", "arr", "ref", ):
            add(nm(x), _n, _n, ident, doc="bytes -> block -> bytes is the identity")
        add(nm("try"), 0, _n, None, 'try', doc="Ok iff n >= size, with the leading bytes; otherwise Err(n)")
        add(nm("store"), _n, 0, None, 'store', doc="writes exactly the leading bytes; panics iff too short")
        for x, op in (("and", "band"), ("or", "bor"), ("xor", "bxor")):
            for suffix in ("", "a"):
                add(nm(x + suffix), 2 * _n, _n, lambda S, i, op=op: Result(bytewise(op)(S, i[:_n], i[_n:2 * _n])), doc="bytewise " + op)
        add(nm("not"), _n, _n, lambda S, i: Result([S.bnot(x) for x in i[:_n]]), doc="bytewise complement")
        add(nm("eq"), 2 * _n, 0, lambda S, i: Result(ret=('bit', S.all_equal(i[:_n], i[_n:2 * _n]))), secret=False, doc="true iff all bytes agree")
        add(nm("ne"), 2 * _n, 0, lambda S, i: Result(ret=('bit', S.flip(S.all_equal(i[:_n], i[_n:2 * _n])))), secret=False, doc="negation of ==")
        add(nm("isz"), _n, 0, lambda S, i: Result(ret=('bit', S.all_equal(i[:_n], [S.const(0)] * _n))), secret=False, doc="true iff all bytes are zero")
        for x in ("zero", "dflt"):
            add(nm(x), 0, _n, lambda S, i: Result([S.const(0)] * _n), doc="all zero")
        for x, m in (("enc", "enc"), ("dec", "dec"), ("encl", "enc_last"), ("decl", "dec_last")):
            add(nm(x), 2 * _n, _n, lambda S, i, m=m: Result(per_block(lambda S, s, k: getattr(S.aes, m)(s, k))(S, i[:_n], i[_n:2 * _n])), doc="FIPS-197 round step " + m)
        for x, m in (("che", "enc"), ("chd", "dec")):
            add(nm(x), _n, _n, m, 'chain', doc="left fold of %s over any number of keys; panics iff there are none" % m)
        add(nm("clone"), 2 * _n, 3 * _n, lambda S, i: Result(list(i[:_n]) * 3), doc="a clone, the original and an object overwritten by a clone all hold the value")
    _mk()

add("mc_1", 16, 16, lambda S, i: Result(S.aes.mix_columns(i[:16])), doc="MixColumns")
add("imc_1", 16, 16, lambda S, i: Result(S.aes.inv_mix_columns(i[:16])), doc="InvMixColumns")
add("to_u128", 16, 16, lambda S, i: Result(i[:16][::-1]), doc="big-endian 128-bit integer (little-endian on the probe interface)")
add("from_u128", 16, 16, lambda S, i: Result(i[:16][::-1]), doc="big-endian 128-bit integer")
for _p, _i, _f in (("x2_of_pair", 32, lambda i: i), ("x2_of_b", 16, lambda i: i * 2), ("x2_to_pair", 32, lambda i: i),
                   ("x4_of_quad", 64, lambda i: i), ("x4_of_pair", 64, lambda i: i), ("x4_of_b", 16, lambda i: i * 4), ("x4_of_x2", 32, lambda i: i * 2),
                   ("x4_to_quad", 64, lambda i: i), ("x4_to_pair", 64, lambda i: i)):
    add(_p, _i, {"2": 32, "4": 64}[_p[1]], lambda S, i, _f=_f, _i=_i: Result(_f(list(i[:_i]))), doc="blocks in order")


# ---- formatting ------------------------------------------------------------
def hexs(S, b, upper=False):
    return [S.hexd(x, h, upper) for x in b for h in (1, 0)]


def binary(S, b):
    return [S.bind(x, k) for x in b for k in range(7, -1, -1)]


for _nm, _pre, _f in (("debug", "", lambda S, b: hexs(S, b)), ("display", "", lambda S, b: hexs(S, b)), ("debugalt", "", lambda S, b: hexs(S, b, True)),
                      ("displayalt", "", lambda S, b: hexs(S, b, True)), ("lhex", "", lambda S, b: hexs(S, b)), ("lhexalt", "0x", lambda S, b: hexs(S, b)),
                      ("uhex", "", lambda S, b: hexs(S, b, True)), ("uhexalt", "0X", lambda S, b: hexs(S, b, True)), ("bin", "", binary), ("binalt", "0b", binary)):
    add("f_%s_1" % _nm, 16, 0, lambda S, i, _f=_f, _pre=_pre: Result(emit=text(S, _pre) + _f(S, i[:16])), secret=False, doc="text form " + _nm)


def full(probe, of, cap):
    """the same text into a sink that takes `cap` bytes: exactly those are written and the error is returned"""
    t = TABLE[of]
    add(probe, t.nin, 0, lambda S, i: Result(emit=t.spec(S, i).emit[:cap], ret=1), secret=False, doc="%s; the sink's error is returned" % t.doc)


for _nm, _cap in (("debug", 17), ("display", 30), ("displayalt", 0), ("lhex", 31), ("lhexalt", 1), ("uhex", 8), ("uhexalt", 1), ("bin", 124), ("binalt", 1)):
    full("w_%s_1" % _nm, "f_%s_1" % _nm, _cap)


def tuple_text(S, bs, alt=False):
    out = text(S, "(\n" if alt else "(")
    for k, b in enumerate(bs):
        out += text(S, "    ") + hexs(S, b, True) + text(S, ",\n") if alt else (text(S, ", ") if k else []) + hexs(S, b)
    return out + text(S, ")")


for _s in (2, 4):
    add("f_debugalt_%d" % _s, 16 * _s, 0, lambda S, i, _s=_s: Result(emit=tuple_text(S, blocks(i[:16 * _s]), True)), secret=False, doc="the tuple of the blocks in upper-case hexadecimal, one to a line")
    add("f_debug_%d" % _s, 16 * _s, 0, lambda S, i, _s=_s: Result(emit=tuple_text(S, blocks(i[:16 * _s]))), secret=False, doc="the tuple of the blocks in hexadecimal")
full("w_debug_2", "f_debug_2", 36)
full("w_debug_4", "f_debug_4", 130)


# ---- ciphers -----------------------------------------------------------------
def _enc(S, k, b): return S.aes.cipher_rk(S.aes.key_expansion(list(k)), list(b))
def _dec(S, k, b): return S.aes.inv_cipher_rk(S.aes.key_expansion(list(k)), list(b))


def many(f, n):
    return lambda S, i, kl: Result(sum([f(S, i[:kl], b) for b in blocks(i[kl:kl + 16 * n])], []))


def struct_text(S, name, rks, alt=False):
    out = text(S, name + (" {\n    round_keys: [\n" if alt else " { round_keys: ["))
    for k, b in enumerate(rks):
        out += text(S, " " * 8) + hexs(S, b, True) + text(S, ",\n") if alt else (text(S, ", ") if k else []) + hexs(S, b)
    return out + text(S, "    ],\n}" if alt else "] }")


def _rk(S, k, how):
    rk = S.aes.key_expansion(list(k))
    return rk if how == 'e' else S.aes.to_dec(rk)


for _k in (16, 24, 32):
    def _mk(k=_k):
        def nm(x): return "%s_%d" % (x, k)
        nr = k // 4 + 6
        for x, f, n in (("e1", _enc, 1), ("e2", _enc, 2), ("e4", _enc, 4), ("d1", _dec, 1), ("d2", _dec, 2), ("d4", _dec, 4), ("ed1", _dec, 1), ("de1", _enc, 1),
                        ("ede1", _enc, 1), ("ded1", _dec, 1), ("ee1", _enc, 1), ("dd1", _dec, 1), ("eu", _enc, 1), ("du", _dec, 1)):
            add(nm(x), k + 16 * n, 16 * n, lambda S, i, f=f, n=n: many(f, n)(S, i, k),
                doc="FIPS-197 %s of each block" % ("Cipher" if f is _enc else "InvCipher"))
        for x in ("rt", "tr"):
            add(nm(x), k + 16, 16, lambda S, i: Result(i[k:k + 16]), doc="the original block")
        for x, how in (("fe", 'e'), ("fd", 'd'), ("fed", 'd'), ("fde", 'e'), ("fede", 'e'), ("fded", 'd'), ("fec", 'e'), ("fdc", 'd'), ("fef", 'e'), ("fdf", 'd'), ("fea", 'e'), ("fda", 'd')):
            add(nm(x), k * (2 if x in ("fef", "fdf") else 1), 0,
                lambda S, i, how=how, alt=x in ("fea", "fda"): Result(emit=struct_text(S, "Aes%d%s" % (8 * k, "Enc" if how == 'e' else "Dec"), _rk(S, i[:k], how), alt)), secret=False,
                doc="type name and round keys in hexadecimal: " + ("KeyExpansion" if how == 'e' else "equivalent inverse cipher schedule"))
        full(nm("we"), nm("fe"), 300)
        full(nm("wd"), nm("fd"), 200)
    _mk()
