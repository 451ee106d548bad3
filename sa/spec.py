"""Reference terms: RFC 8391 / FIPS 202 / QRL layouts, written independently of the code."""
from . import terms as T
from .terms import S, mask

N = 32
HF = {'SHA2_256': 0, 'SHAKE_128': 1, 'SHAKE_256': 2}
PRIM = {0: 'sha2_256', 1: 'shake128', 2: 'shake256'}


def B(v, n):
    """rope segment of n bytes"""
    return ('b', n, v)


def rope(*segs):
    out = []
    for s in segs:
        if s[0] == 'b' and s[1] == 0:
            continue
        if s[0] == 'b' and out and out[-1][0] == 'b':
            p = out[-1]
            out[-1] = ('b', p[1] + s[1], T.concat([(p[2], 8 * p[1]), (s[2], 8 * s[1])]))
        else:
            out.append(s)
    return tuple(out)


def xof(name, segs):
    """infinite output sequence of an opaque hash"""
    return T.atom('hash', (name, None) + tuple(segs))


def hashv(name, n, *segs):
    return T.seqbytes(xof(name, rope(*segs)), 0, n)


def be(v, w, nbytes):
    """big-endian encoding (memory order value) of the w-bit integer v in nbytes"""
    x = T.zext(v, w, 8 * nbytes) if w <= 8 * nbytes else T.extract(v, w, 0, 8 * nbytes)
    return T.bswap_bytes(x, nbytes)


def le(v, w, nbytes):
    return T.zext(v, w, 8 * nbytes) if w <= 8 * nbytes else T.extract(v, w, 0, 8 * nbytes)


def tobyte(v, w, n):
    return be(v, w, n)


# ---------------------------------------------------------------- XMSS functions
def keyed(hf, typ, key, keylen, segs, n=N):
    return hashv(PRIM[hf], n, B(tobyte(typ, 32, n), n), B(key, keylen), *segs)


def prf(hf, m, key, n=N):
    """m: 32-byte value, key: n-byte value"""
    return keyed(hf, 3, key, n, [B(m, 32)], n)


class Adrs:
    """eight 32-bit words"""

    def __init__(self, words):
        self.w = list(words)

    def copy(self):
        return Adrs(self.w)

    def set(self, **kw):
        a = Adrs(self.w)
        for k, v in kw.items():
            if k == 'layer':
                a.w[0] = v
            elif k == 'tree':
                a.w[1] = T.extract(v, 64, 32, 32)
                a.w[2] = T.extract(v, 64, 0, 32)
            elif k == 'type':
                a.w[3] = v
                a.w[4] = a.w[5] = a.w[6] = a.w[7] = 0
            elif k in ('ots', 'ltree'):
                a.w[4] = v
            elif k in ('chain', 'height'):
                a.w[5] = v
            elif k in ('hash', 'index'):
                a.w[6] = v
            elif k == 'km':
                a.w[7] = v
        return a

    def bytes(self):
        return T.concat([(be(x, 32, 4), 32) for x in self.w])

    def mem(self):
        """as stored in memory by a little-endian machine"""
        return T.concat([(x, 32) for x in self.w])


def F(hf, m, pub, a, n=N):
    key = prf(hf, a.set(km=0).bytes(), pub, n)
    bm = prf(hf, a.set(km=1).bytes(), pub, n)
    return keyed(hf, 0, key, n, [B(T.bxor(m, bm, 8 * n), n)], n)


def H(hf, m, pub, a, n=N):
    """m: 2n bytes"""
    key = prf(hf, a.set(km=0).bytes(), pub, n)
    b0 = prf(hf, a.set(km=1).bytes(), pub, n)
    b1 = prf(hf, a.set(km=2).bytes(), pub, n)
    return keyed(hf, 1, key, n, [B(T.bxor(m, T.concat([(b0, 8 * n), (b1, 8 * n)]), 16 * n), 2 * n)], n)
