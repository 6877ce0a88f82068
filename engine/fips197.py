"""FIPS-197, written from the standard, over ints and over normal forms.  This is the specification
side of every cryptographic contract; it shares no code and no tables with /repo."""
from forms import fxor, lift

from aesbox import gmul as _gmul, SBOX, INV

RCON = [1, 2, 4, 8, 16, 32, 64, 128, 0x1b, 0x36]
NR = {16: 10, 24: 12, 32: 14}
MC = [[2, 3, 1, 1], [1, 2, 3, 1], [1, 1, 2, 3], [3, 1, 1, 2]]
IMC = [[14, 11, 13, 9], [9, 14, 11, 13], [13, 9, 14, 11], [11, 13, 9, 14]]


class IntOps:
    """bytes are ints"""
    zero = 0
    @staticmethod
    def xor(a, b): return a ^ b
    @staticmethod
    def sbox(a): return SBOX[a]
    @staticmethod
    def inv(a): return INV[a]
    @staticmethod
    def mul(c, a): return _gmul(a, c)
    @staticmethod
    def const(c): return c


_MULT = {c: [_gmul(x, c) for x in range(256)] for c in (1, 2, 3, 9, 11, 13, 14)}
# bit k of c*x as the list of input bits it XORs (multiplication by a constant is linear)
_MULM = {c: [[i for i in range(8) if _MULT[c][1 << i] >> k & 1] for k in range(8)] for c in _MULT}


class FormOps:
    """bytes are tuples of 8 bits (ints or Forms), LSB first"""
    zero = (0,) * 8
    @staticmethod
    def xor(a, b): return tuple(fxor(x, y) for x, y in zip(a, b))
    @staticmethod
    def sbox(a): return tuple(lift(a, SBOX, 8, "SBOX"))
    @staticmethod
    def inv(a): return tuple(lift(a, INV, 8, "INV"))
    @staticmethod
    def mul(c, a):
        if c == 1:
            return a
        out = []
        for k in range(8):
            v = 0
            for i in _MULM[c][k]:
                v = fxor(v, a[i])
            out.append(v)
        return tuple(out)
    @staticmethod
    def const(c): return tuple(c >> k & 1 for k in range(8))


class Aes:
    """State: list of 16 bytes, byte index 4*col+row as in FIPS-197 3.4."""
    def __init__(self, ops):
        self.o = ops

    def add(self, s, k): return [self.o.xor(a, b) for a, b in zip(s, k)]
    def sub_bytes(self, s): return [self.o.sbox(b) for b in s]
    def inv_sub_bytes(self, s): return [self.o.inv(b) for b in s]
    def shift_rows(self, s): return [s[4 * ((c + r) % 4) + r] for c in range(4) for r in range(4)]
    def inv_shift_rows(self, s): return [s[4 * ((c - r) % 4) + r] for c in range(4) for r in range(4)]

    def _mix(self, s, m):
        out = []
        for c in range(4):
            for r in range(4):
                v = self.o.zero
                for j in range(4):
                    v = self.o.xor(v, self.o.mul(m[r][j], s[4 * c + j]))
                out.append(v)
        return out

    def mix_columns(self, s): return self._mix(s, MC)
    def inv_mix_columns(self, s): return self._mix(s, IMC)

    # the documented round operations
    def enc(self, s, k): return self.add(self.mix_columns(self.sub_bytes(self.shift_rows(s))), k)
    def enc_last(self, s, k): return self.add(self.sub_bytes(self.shift_rows(s)), k)
    def dec(self, s, k): return self.add(self.inv_mix_columns(self.inv_sub_bytes(self.inv_shift_rows(s))), k)
    def dec_last(self, s, k): return self.add(self.inv_sub_bytes(self.inv_shift_rows(s)), k)

    def key_expansion(self, key):
        """FIPS-197 5.2: list of Nr+1 round keys, 16 bytes each."""
        nk = len(key) // 4
        nr = nk + 6
        w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
        for i in range(nk, 4 * (nr + 1)):
            t = w[i - 1]
            if i % nk == 0:
                t = [self.o.sbox(b) for b in t[1:] + t[:1]]
                t = [self.o.xor(t[0], self.o.const(RCON[i // nk - 1]))] + t[1:]
            elif nk > 6 and i % nk == 4:
                t = [self.o.sbox(b) for b in t]
            w.append([self.o.xor(a, b) for a, b in zip(w[i - nk], t)])
        return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]

    def dec_key_expansion(self, key):
        """FIPS-197 5.3.5 round keys in order of use."""
        rk = self.key_expansion(key)
        return self.to_dec(rk)

    def to_dec(self, rk):
        return [rk[-1]] + [self.inv_mix_columns(k) for k in rk[-2:0:-1]] + [rk[0]]

    def to_enc(self, dk):
        return [dk[-1]] + [self.mix_columns(k) for k in dk[-2:0:-1]] + [dk[0]]

    def cipher_rk(self, rk, s):
        """FIPS-197 5.1 Cipher() over round keys"""
        s = self.add(s, rk[0])
        for r in range(1, len(rk) - 1):
            s = self.sub_bytes(s); s = self.shift_rows(s); s = self.mix_columns(s); s = self.add(s, rk[r])
        s = self.sub_bytes(s); s = self.shift_rows(s)
        return self.add(s, rk[-1])

    def inv_cipher_rk(self, rk, s):
        """FIPS-197 5.3 InvCipher() (the straightforward one) over the encryption round keys"""
        s = self.add(s, rk[-1])
        for r in range(len(rk) - 2, 0, -1):
            s = self.inv_shift_rows(s); s = self.inv_sub_bytes(s); s = self.add(s, rk[r]); s = self.inv_mix_columns(s)
        s = self.inv_shift_rows(s); s = self.inv_sub_bytes(s)
        return self.add(s, rk[0])

    def eq_inv_cipher_rk(self, dk, s):
        s = self.add(s, dk[0])
        for r in range(1, len(dk) - 1):
            s = self.dec(s, dk[r])
        return self.dec_last(s, dk[-1])


INT = Aes(IntOps)
FORM = Aes(FormOps)


def cipher(key, block): return bytes(INT.cipher_rk(INT.key_expansion(list(key)), list(block)))
def inv_cipher(key, block): return bytes(INT.inv_cipher_rk(INT.key_expansion(list(key)), list(block)))


# FIPS-197 appendix C known answers: the specification itself is checked on every run
_PT = bytes.fromhex("00112233445566778899aabbccddeeff")
for _n, _ct in ((16, "69c4e0d86a7b0430d8cdb78070b4c55a"), (24, "dda97ca4864cdfe06eaf70a0ec0d7191"), (32, "8ea2b7ca516745bfeafc49904b496089")):
    _k = bytes(range(_n))
    assert cipher(_k, _PT).hex() == _ct and inv_cipher(_k, bytes.fromhex(_ct)) == _PT
