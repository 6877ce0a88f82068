"""The AES S-box, computed from its definition in FIPS-197 5.1.1."""


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11b
        b >>= 1
    return r

def _mkbox():
    s = [0] * 256
    for x in range(256):
        inv = 0
        if x:
            for y in range(1, 256):
                if gmul(x, y) == 1:
                    inv = y
                    break
        r = 0
        for i in range(8):
            b = (inv >> i ^ inv >> ((i + 4) % 8) ^ inv >> ((i + 5) % 8) ^ inv >> ((i + 6) % 8) ^ inv >> ((i + 7) % 8) ^ 0x63 >> i) & 1
            r |= b << i
        s[x] = r
    return s

SBOX = _mkbox()
INV = [0] * 256
for _i, _v in enumerate(SBOX):
    INV[_v] = _i
assert SBOX[0x53] == 0xed and SBOX[0] == 0x63 and INV[0] == 0x52      # FIPS-197 5.1.1, figure 14
