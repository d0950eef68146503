"""Independent Twofish, written from the specification (section 4 of the Twofish paper).

Table-free and slow on purpose: every step is the textbook definition (4-bit t-boxes, GF(2^8)
matrix products), so it shares no structure with the optimised implementation under test.
Only q-box bytes and the per-key g tables are memoised.
"""
import struct

_T = {
    0: ([0x8, 0x1, 0x7, 0xD, 0x6, 0xF, 0x3, 0x2, 0x0, 0xB, 0x5, 0x9, 0xE, 0xC, 0xA, 0x4],
        [0xE, 0xC, 0xB, 0x8, 0x1, 0x2, 0x3, 0x5, 0xF, 0x4, 0xA, 0x6, 0x7, 0x0, 0x9, 0xD],
        [0xB, 0xA, 0x5, 0xE, 0x6, 0xD, 0x9, 0x0, 0xC, 0x8, 0xF, 0x3, 0x2, 0x4, 0x7, 0x1],
        [0xD, 0x7, 0xF, 0x4, 0x1, 0x2, 0x6, 0xE, 0x9, 0xB, 0x3, 0x0, 0x8, 0x5, 0xC, 0xA]),
    1: ([0x2, 0x8, 0xB, 0xD, 0xF, 0x7, 0x6, 0xE, 0x3, 0x1, 0x9, 0x4, 0x0, 0xA, 0xC, 0x5],
        [0x1, 0xE, 0x2, 0xB, 0x4, 0xC, 0x3, 0x7, 0x6, 0xD, 0xA, 0x5, 0xF, 0x9, 0x0, 0x8],
        [0x4, 0xC, 0x7, 0x5, 0x1, 0x6, 0x9, 0xA, 0x0, 0xE, 0xD, 0x8, 0x2, 0xB, 0x3, 0xF],
        [0xB, 0x9, 0x5, 0x1, 0xC, 0x3, 0xD, 0xE, 0x6, 0x4, 0x7, 0xF, 0x2, 0x0, 0x8, 0xA]),
}


def _ror4(x):
    return ((x >> 1) | (x << 3)) & 15


def _q(n, x):
    t = _T[n]
    a, b = x >> 4, x & 15
    a, b = a ^ b, a ^ _ror4(b) ^ ((8 * a) & 15)
    a, b = t[0][a], t[1][b]
    a, b = a ^ b, a ^ _ror4(b) ^ ((8 * a) & 15)
    a, b = t[2][a], t[3][b]
    return 16 * b + a


Q = [[_q(n, x) for x in range(256)] for n in (0, 1)]


def _gf(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r


MDS = [[0x01, 0xEF, 0x5B, 0x5B], [0x5B, 0xEF, 0xEF, 0x01], [0xEF, 0x5B, 0x01, 0xEF], [0xEF, 0x01, 0xEF, 0x5B]]
RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E], [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
      [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19], [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]
# contribution of byte value v in column j of the MDS product, as a little-endian word
_MDSC = [[sum(_gf(MDS[i][j], v, 0x169) << (8 * i) for i in range(4)) for v in range(256)] for j in range(4)]

# which q-box is applied to byte lane j at each stage, from the outermost (k = 4) inwards
_ORDER = {3: (1, 0, 0, 1), 2: (1, 1, 0, 0), 1: (0, 1, 0, 1), 0: (0, 0, 1, 1), -1: (1, 0, 1, 0)}


def _lane(j, x, words):
    """One byte lane of h: words is the list L, lane byte j of each is xored in."""
    for i in range(len(words) - 1, -1, -1):
        x = Q[_ORDER[i][j]][x] ^ ((words[i] >> (8 * j)) & 255)
    return Q[_ORDER[-1][j]][x]


def _h(x, words):
    r = 0
    for j in range(4):
        r ^= _MDSC[j][_lane(j, (x >> (8 * j)) & 255, words)]
    return r


def _rol(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xFFFFFFFF


def _ror(x, n):
    return _rol(x, 32 - n)


class Twofish:
    def __init__(self, key):
        assert len(key) in (16, 24, 32)
        k = len(key) // 8
        m = struct.unpack('<%dI' % (2 * k), key)
        me, mo = m[0::2], m[1::2]
        s = []
        for i in range(k):
            part = key[8 * i:8 * i + 8]
            w = 0
            for r in range(4):
                v = 0
                for c in range(8):
                    v ^= _gf(RS[r][c], part[c], 0x14D)
                w |= v << (8 * r)
            s.append(w)
        s.reverse()
        rho = 0x01010101
        self.K = []
        for i in range(20):
            a = _h(2 * i * rho & 0xFFFFFFFF, me)
            b = _rol(_h((2 * i + 1) * rho & 0xFFFFFFFF, mo), 8)
            self.K.append((a + b) & 0xFFFFFFFF)
            self.K.append(_rol((a + 2 * b) & 0xFFFFFFFF, 9))
        self.G = [[_MDSC[j][_lane(j, v, s)] for v in range(256)] for j in range(4)]

    def _g(self, x):
        G = self.G
        return G[0][x & 255] ^ G[1][(x >> 8) & 255] ^ G[2][(x >> 16) & 255] ^ G[3][x >> 24]

    def encrypt(self, block):
        K = self.K
        r = [p ^ k for p, k in zip(struct.unpack('<4I', block), K)]
        for i in range(16):
            t0 = self._g(r[0])
            t1 = self._g(_rol(r[1], 8))
            f0 = (t0 + t1 + K[2 * i + 8]) & 0xFFFFFFFF
            f1 = (t0 + 2 * t1 + K[2 * i + 9]) & 0xFFFFFFFF
            r = [_ror(r[2] ^ f0, 1), _rol(r[3], 1) ^ f1, r[0], r[1]]
        return struct.pack('<4I', *[r[(i + 2) % 4] ^ K[i + 4] for i in range(4)])

    def decrypt(self, block):
        K = self.K
        c = struct.unpack('<4I', block)
        r = [0] * 4
        for i in range(4):
            r[(i + 2) % 4] = c[i] ^ K[i + 4]
        for i in range(15, -1, -1):
            # invert r_new = [ror(r2^f0,1), rol(r3,1)^f1, r0, r1]
            p0, p1 = r[2], r[3]
            t0 = self._g(p0)
            t1 = self._g(_rol(p1, 8))
            f0 = (t0 + t1 + K[2 * i + 8]) & 0xFFFFFFFF
            f1 = (t0 + 2 * t1 + K[2 * i + 9]) & 0xFFFFFFFF
            r = [p0, p1, _rol(r[0], 1) ^ f0, _ror(r[1] ^ f1, 1)]
        return struct.pack('<4I', *[r[i] ^ K[i] for i in range(4)])


def cbc_encrypt(key, iv, data):
    assert len(data) % 16 == 0
    c = Twofish(key)
    out = bytearray()
    for i in range(0, len(data), 16):
        iv = c.encrypt(bytes(a ^ b for a, b in zip(data[i:i + 16], iv)))
        out += iv
    return bytes(out)


def cbc_decrypt(key, iv, data):
    assert len(data) % 16 == 0
    c = Twofish(key)
    out = bytearray()
    for i in range(0, len(data), 16):
        blk = data[i:i + 16]
        out += bytes(a ^ b for a, b in zip(c.decrypt(blk), iv))
        iv = blk
    return bytes(out)


def self_test():
    """Known-answer iteration of the Twofish submission (ECB_TBL, I=1..49)."""
    final = {16: '5D9D4EEFFA9151575524F115815A12E0', 24: 'E75449212BEEF9F4A390BD860A640941',
             32: '37FE26FF1CF66175F5DDF4C33B97A205'}
    for n, want in final.items():
        key, pt = bytes(n), bytes(16)
        for _ in range(49):
            ct = Twofish(key).encrypt(pt)
            assert Twofish(key).decrypt(ct) == pt
            key, pt = (pt + key)[:n], ct
        assert ct.hex().upper() == want, (n, ct.hex())


if __name__ == '__main__':
    self_test()
    print('ok')
