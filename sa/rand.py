"""Random interpretation of terms (Gulwani/Necula style): gives every input atom
a random value and every opaque function a random-oracle value.  Used only to
confirm that two terms whose canonical forms differ really denote different
values - a rule is reported as violated only together with such a witness."""
import hashlib
import marshal
from . import terms as T
from .terms import S, mask


class CantEval(Exception):
    pass


def prf(seed, *key):
    return hashlib.blake2b(marshal.dumps((seed,) + key, 2), digest_size=32).digest()


class Valuation:
    def __init__(self, seed, fixed=None, small=None, hi_override=None):
        self.seed = seed
        self.fixed = fixed or {}         # atom name -> int | bytes
        self.memo = {}
        self.streams = {}
        self.small = small
        self.iv = {}
        self.funcs = {}
        self.over = {}          # input name -> [(bit, nbits, value)]
        self.consts = ()
        self.contents = {}
        self.fover = {}         # (function, arguments) -> [(bit, nbits, value)]

    def patch(self, name, bit, n, value):
        self.over.setdefault(name, []).append((bit, n, value))
        self.memo.clear()
        self.contents.clear()

    def enforce(self, a, v=1):
        """make the boolean atom a take the value v, if possible"""
        try:
            return self.force_bool(a, v)
        except CantEval:
            return False

    def force_bool(self, a, v):
        if self.atom(a) == v:
            return True
        k = a.kind
        if k == 'conj':
            lits = sorted(a.args)
            if v:
                return all([self.force_piece((1, m, sl), 1) for m, sl in lits])
            i = int.from_bytes(prf(self.seed, 'neg', a.id)[:4], 'little') % len(lits)
            return self.force_piece((1,) + lits[i], 0)
        if k == 'is':
            p, x = a.args
            if v:
                return self.force_piece(p, x)
            return self.force_piece(p, x ^ 1 << int.from_bytes(prf(self.seed, 'bit', a.id)[:4], 'little') % p[0])
        if k == 'z':
            return self.force_form(a.args[0], a.args[1], 0 if v else 1)
        if k == 'lt':
            return self.force_form(a.args[0], a.args[1], -1 if v else 0)
        return self.force(a, 0, 1, v)

    def force_form(self, c, d, t):
        cur = self.form(c, d)
        for k, co in d:
            if co in (1, -1):
                x = self.piece(k) + (t - cur) * co
                if 0 <= x <= mask(k[0]) and self.force_piece(k, x):
                    return True
        return False

    def force_piece(self, p, v):
        n, m, sl = p
        if not sl:
            return m == v
        order = sorted(range(len(sl)), key=lambda i: T.ATOMS[sl[i][0]].kind == 'in')
        for i in order:
            r = v ^ m
            for j, (o, l2) in enumerate(sl):
                if j != i:
                    r ^= self.slice(o, l2, n)
            if self.force(T.ATOMS[sl[i][0]], sl[i][1], n, r):
                return True
        return False

    def force(self, a, lo, n, v):
        """make bits [lo, lo+n) of atom a equal v; the interpretation of inputs and
        of opaque functions is free, so both may be adjusted"""
        k = a.kind
        if k == 'in':
            if a.args in self.fixed:
                return False
            self.patch(a.args, lo, n, v)
            return True
        if k in ('is', 'conj', 'z', 'lt'):
            return n == 1 and self.force_bool(a, v)
        if k == 'ite':
            c, p, q = a.args
            x = p if self.val(c) & 1 else q
            cur = self.piece(x)
            return self.force_piece((n, x[1] >> lo & mask(n), tuple((i, l + lo) for i, l in x[2])), v)
        if k == 'fun' and a.args[0] != 'CHAIN':
            key = (a.args[0], tuple(self.arg(x) for x in a.args[1:]))
        elif k == 'hash' and a.args[0] not in self.funcs:
            key = (a.args[0], self.ropebytes(a.args[2:]))
        elif k == 'lin' and lo == 0 and n == a.w:
            c, d = a.args[:2]
            cur = self.form(c, d)
            for kk, co in d:
                if co in (1, -1):
                    x = (self.piece(kk) + (v - cur) * co) & mask(a.w)
                    if x <= mask(kk[0]) and self.force_piece(kk, x):
                        return True
            return False
        else:
            return False
        self.fover.setdefault(key, []).append((lo, n, v))
        self.memo.clear()
        self.contents.clear()
        return True

    # --------------------------------------------------------- inputs
    def input(self, a):
        f = self.fixed.get(a.args)
        if f is not None:
            return f
        r = self.input0(a)
        for bit, n, v in self.over.get(a.args, ()):
            r = r & ~(mask(n) << bit) | v << bit
        return r

    def input0(self, a):
        r = int.from_bytes(prf(self.seed, 'in', a.args)[:24], 'little')
        lo, hi = a.lo or 0, a.hi
        span = hi - lo + 1
        mode = r & 7
        r >>= 3
        if self.small and span > self.small:
            return lo + r % self.small
        if self.consts and mode >= 5:
            x = self.consts[r % len(self.consts)] + (r >> 40) % 3 - 1
            if lo <= x <= hi:
                return x
        if mode == 0:
            return lo + r % min(span, 4)
        if mode == 1:
            return hi - r % min(span, 4)
        if mode == 2:
            return lo + r % min(span, 300)
        return lo + r % span

    def stream(self, name, off, n):
        """n bytes at byte offset off of a named infinite input sequence"""
        if off < 0:
            raise CantEval('negative stream offset')
        if n > 1 << 20:
            raise CantEval('long stream')
        f = self.fixed.get(name)
        if isinstance(f, (bytes, bytearray)):
            b = f[off:off + n]
            return b + b'\0' * (n - len(b))
        out = bytearray()
        blk = off // 32
        while blk * 32 < off + n:
            k = (name, blk)
            b = self.streams.get(k)
            if b is None:
                b = prf(self.seed, 'st', name, blk)
                if self.seed % 6 == 5:      # bytes at the ends of their range
                    b = bytes(0 if x < 80 else 255 if x < 160 else x for x in b)
                self.streams[k] = b
            out += b
            blk += 1
        s = off - (off // 32) * 32
        ov = self.over.get(name)
        if ov:
            b = int.from_bytes(out[s:s + n], 'little')
            for bit, k, v in ov:
                lo = bit - 8 * off
                if lo + k <= 0 or lo >= 8 * n:
                    continue
                if lo < 0:
                    v >>= -lo
                    k += lo
                    lo = 0
                if lo + k > 8 * n:
                    k = 8 * n - lo
                    v &= mask(k)
                b = b & ~(mask(k) << lo) | v << lo
            return b.to_bytes(n, 'little')
        return bytes(out[s:s + n])

    # --------------------------------------------------------- terms
    def val(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return v
        if isinstance(v, S):
            r = 0
            pos = 0
            for p in v.ps:
                r |= self.piece(p) << pos
                pos += p[0]
            return r
        raise CantEval(repr(v))

    def piece(self, p):
        n, m, sl = p
        r = m
        for aid, lo in sl:
            r ^= self.slice(aid, lo, n)
        return r

    def slice(self, aid, lo, n):
        a = T.ATOMS[aid]
        if a.w is None:
            o0 = lo // 8
            o1 = (lo + n + 7) // 8
            b = self.seqread(a, o0, o1 - o0)
            return (int.from_bytes(b, 'little') >> (lo - 8 * o0)) & mask(n)
        return (self.atom(a) >> lo) & mask(n)

    def seqread(self, a, off, n):
        if a.kind == 'in':
            return self.stream(a.args, off, n)
        if a.kind == 'hash':
            return self.hashout(a, off, n)
        if a.kind == 'map':
            k, val, key = a.args
            out = b''
            i = off // k
            base = i * k
            while base < off + n:
                sub = self.with_iv(key, i)
                out += sub.val(val).to_bytes(k, 'little')
                base += k
                i += 1
            s = off - (off // k) * k
            return out[s:s + n]
        if a.kind == 'prefixof':
            if a.args[0] == 'rope':
                return self.roperead(a.args[1:])[1](off, n).ljust(n, b'\0')
            return self.content(a.args)[off:off + n].ljust(n, b'\0')
        raise CantEval('sequence ' + a.kind)

    def with_iv(self, key, i):
        """same valuation, with the atom of piece key set to i"""
        aid = key[2][0][0]
        c = Valuation(self.seed, self.fixed, self.small)
        c.streams = self.streams
        c.funcs = self.funcs
        c.over = self.over
        c.fover = self.fover
        c.consts = self.consts
        c.contents = self.contents
        c.iv = dict(self.iv)
        c.iv[aid] = i
        return c

    def content(self, key):
        if key[0] == 'content':
            if key[1] < 256:
                return self.val(key[2]).to_bytes(key[1], 'little')
            # long contents are evaluated once, also across the positions of a loop they do not depend on
            ids = deps(key)
            k = (key[1], key[2], tuple((a, i) for a, i in sorted(self.iv.items()) if a in ids))
            r = self.contents.get(k)
            if r is None:
                r = self.contents[k] = self.val(key[2]).to_bytes(key[1], 'little')
            return r
        raise CantEval('content %r' % (key[0],))

    def form(self, c, d):
        r = c
        for k, co in d:
            r += co * self.piece(k)
        return r

    def atom(self, a):
        r = self.iv.get(a.id)
        if r is not None:
            return r
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = self._atom(a)
        return r

    def _atom(self, a):
        k = a.kind
        if k == 'in':
            return self.input(a)
        if k == 'lin':
            return self.form(*a.args) & mask(a.w)
        if k == 'is':
            return int(self.piece(a.args[0]) == a.args[1])
        if k == 'z':
            return int(self.form(a.args[0], a.args[1]) == 0)
        if k == 'lt':
            return int(self.form(a.args[0], a.args[1]) < 0)
        if k == 'eqm':
            return int(self.form(a.args[0], a.args[1]) % (1 << a.args[2]) == 0)
        if k == 'conj':
            for m, sl in a.args:
                b = m
                for x, lo in sl:
                    b ^= self.slice(x, lo, 1)
                if not b:
                    return 0
            return 1
        if k == 'and':
            r = 1
            for sl in a.args:
                b = 0
                for x, lo in sl:
                    b ^= self.slice(x, lo, 1)
                r &= b
            return r
        if k == 'ite':
            c, p, q = a.args
            return self.piece(p) if self.val(c) & 1 else self.piece(q)
        if k in ('mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.val(a.args[0]), self.val(a.args[1])
            w = a.w
            for z in a.args:
                if isinstance(z, S):
                    w = max(w, z.w)
            if k == 'mul':
                return (x * y) & mask(a.w)
            if k == 'shl':
                return (x << y) & mask(a.w) if y < w else 0
            if k == 'lshr':
                return x >> y if y < w else 0
            if k == 'ashr':
                return (T.tosigned(x, w) >> min(y, w - 1)) & mask(w)
            if y == 0:
                raise CantEval('division by zero')
            if k == 'udiv':
                return x // y
            if k == 'urem':
                return x % y
            f = T.sdiv if k == 'sdiv' else T.srem
            return f(x, y, w) & mask(a.w)
        if k == 'addr':
            return int.from_bytes(prf(self.seed, 'addr', a.args.name)[:5], 'little') << 12 | 1 << 46
        if k == 'sel':
            key, off, n = a.args
            o = T.tosigned(self.val(off), 64) if not isinstance(off, int) else off
            b = self.content(key)
            if o < 0 or o + n > len(b):
                raise CantEval('select outside content')
            return int.from_bytes(b[o:o + n], 'little')
        if k == 'at':
            sq, off, n = a.args
            o = self.val(off)
            return int.from_bytes(self.seqread(sq, T.tosigned(o, 64), n), 'little')
        if k == 'memcmp':
            x, y, n = a.args
            bx, by = self.val(x).to_bytes(n, 'little'), self.val(y).to_bytes(n, 'little')
            return 0 if bx == by else 1
        if k == 'hash':
            return int.from_bytes(self.hashout(a, 0, (a.w + 7) // 8), 'little') & mask(a.w)
        if k == 'fun':
            name = a.args[0]
            args = tuple(self.arg(x) for x in a.args[1:])
            if name == 'CHAIN':
                hf, x, start, steps, pub, ws = args
                if steps > 300:
                    raise CantEval('chain of %d steps' % steps)
                for j in range(start, start + steps):
                    x = int.from_bytes(prf(self.seed, 'fun', 'F', (hf, x, pub, ws + (j,)), 0), 'little') & mask(256)
                return x
            b = b''
            i = 0
            while len(b) * 8 < a.w:
                b += prf(self.seed, 'fun', name, args, i)
                i += 1
            r = int.from_bytes(b, 'little') & mask(a.w)
            for lo, n, v in self.fover.get((name, args), ()):
                r = r & ~(mask(n) << lo) | v << lo
            return r
        raise CantEval('atom kind ' + k)

    def arg(self, x):
        if isinstance(x, (int, S)):
            return self.val(x)
        if isinstance(x, tuple) and x and x[0] in ('b', 's', 'f'):
            return self.ropebytes((x,))
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if isinstance(x, str):
            return x
        raise CantEval('argument %r' % (x,))

    def ropebytes(self, segs):
        out = b''
        for s in segs:
            if s[0] == 'b':
                out += self.val(s[2]).to_bytes(s[1], 'little')
                continue
            n = self.val(s[1])
            if n < 0 or n > 1 << 60:
                raise CantEval('segment length %d' % n)
            if n > 1 << 20:
                return self.longrope(segs)
            if s[0] == 'f':
                out += bytes([s[2]]) * n
            elif s[0] == 's':
                o = s[3] if isinstance(s[3], int) else T.tosigned(self.val(s[3]), 64)
                out += self.seqread(s[2], o, n)
            else:
                raise CantEval('segment %r' % (s,))
        return out

    def roperead(self, segs):
        at = []
        pos = 0
        for s in segs:
            n = s[1] if s[0] == 'b' else self.val(s[1])
            if n < 0 or n > 1 << 60:
                raise CantEval('segment length %d' % n)
            if s[0] not in ('b', 'f', 's'):
                raise CantEval('segment %r' % (s,))
            at.append((pos, n, s))
            pos += n

        def read(o, k):
            out = b''
            for p, n, s in at:
                a, b = max(o, p), min(o + k, p + n)
                if a >= b:
                    continue
                if s[0] == 'b':
                    out += self.val(s[2]).to_bytes(n, 'little')[a - p:b - p]
                elif s[0] == 'f':
                    out += bytes([s[2]]) * (b - a)
                else:
                    q = s[3] if isinstance(s[3], int) else T.tosigned(self.val(s[3]), 64)
                    out += self.seqread(s[2], q + a - p, b - a)
            return out
        return pos, read

    def longrope(self, segs):
        """stands for a byte string too long to build: its length, both ends and bytes at positions chosen by the length
        (equal strings have equal stand-ins)"""
        pos, read = self.roperead(segs)
        out = b'long' + pos.to_bytes(8, 'little') + read(0, 4096) + read(pos - 4096, 4096)
        for i in range(64):
            o = int.from_bytes(prf(0, 'pos', pos, i)[:8], 'little') % (pos - 32)
            out += read(o, 32)
        return out

    def hashout(self, a, off, n):
        """args: (name, outlen or None, *segs); XOF prefix property: the output
        stream depends on name and input only"""
        key = ('h', a.id)
        inp = self.memo.get(key)
        if inp is None:
            inp = self.ropebytes(a.args[2:])
            self.memo[key] = inp
        name = a.args[0]
        f = self.funcs.get(name)
        if f is not None:
            if inp[:4] == b'long' and len(inp) > 8000:
                raise CantEval('long input')
            return f(inp, off + n)[off:off + n]
        out = b''
        blk = off // 32
        h = hashlib.blake2b(inp, digest_size=16).digest()
        while blk * 32 < off + n:
            out += prf(self.seed, 'hash', name, len(inp), h, blk)
            blk += 1
        s = off % 32
        out = out[s:s + n]
        ov = self.fover.get((name, inp))
        if ov:
            b = int.from_bytes(out, 'little')
            for bit, k, v in ov:
                for i in range(k):
                    x = bit + i - 8 * off
                    if 0 <= x < 8 * n:
                        b = b & ~(1 << x) | (v >> i & 1) << x
            out = b.to_bytes(n, 'little')
        return out


_deps = {}


def deps(key):
    """ids of all atoms a content key depends on"""
    r = _deps.get(key)
    if r is None:
        from .interp import atom_refs, _collect
        r = set()
        _collect(key[2], r)
        work = list(r)
        while work:
            for x in atom_refs(work.pop()):
                if x not in r:
                    r.add(x)
                    work.append(x)
        _deps[key] = r
    return r


def reach_atoms(terms, limit=20000):
    """boolean atoms and constants appearing in the terms"""
    from .interp import atom_refs, _collect
    seen = set()
    refs = set()
    for t in terms:
        _collect(t, refs)
    work = list(refs)
    bools, consts = [], set()
    while work and len(seen) < limit:
        aid = work.pop()
        if aid in seen:
            continue
        seen.add(aid)
        a = T.ATOMS[aid]
        if a.kind in ('is', 'conj', 'z', 'lt'):
            bools.append(a)
            if a.kind == 'is':
                consts.add(a.args[1])
        elif a.kind in ('z', 'lt', 'lin'):
            consts.add(abs(a.args[0]))
        work.extend(atom_refs(aid))
    bools.sort(key=lambda a: a.id)
    return bools, sorted(consts)


def valuations(terms, rounds, fixed=None, assume=(), small=None, seed0=0, funcs=None):
    bools, consts = reach_atoms(list(terms) + list(assume))
    asm = [T.ATOMS[sl[0][0]] for c in assume if isinstance(c, S) for m, sl in [T.lit(c)] if not m and len(sl) == 1]
    tops = [a for a in bools if a.kind == 'conj']
    n = 0
    for r in range(rounds * 6):
        if n >= rounds:
            return
        sm = (None, 9, 40, 300)[r % 4] if small is None else small
        v = Valuation(seed0 * 1000 + r, fixed, sm)
        v.consts = consts
        if funcs:
            v.funcs = funcs
        try:
            if bools and r % 3:
                k = int.from_bytes(prf(v.seed, 'pick')[:8], 'little')
                for i in range(1 + k % 3):
                    bs = tops if tops and (k >> (4 + i)) & 1 else bools
                    v.enforce(bs[(k >> (8 + 13 * i)) % len(bs)], int((k >> (60 - i)) & 3 != 0))
            for a in asm:
                v.enforce(a)
            if not all(v.val(c) & 1 for c in assume):
                continue
        except CantEval:
            continue
        n += 1
        yield v


def differ(a, b, rounds=24, fixed=None, assume=(), small=None, seed0=0):
    """look for a valuation under which a != b.  Returns (witness|None, tried)"""
    tried = 0
    for v in valuations([a, b], rounds, fixed, assume, small, seed0):
        try:
            x, y = v.val(a), v.val(b)
        except CantEval:
            continue
        tried += 1
        if x != y:
            return v, tried
    return None, tried


# ------------------------------------------------------------------ exhaustion
def support(ts, limit=16):
    """the input bits a term depends on: {(name, bit)}, or None when it contains
    opaque functions, partially used bounded inputs, or more than limit bits"""
    out = {}
    seen = set()

    def sl(aid, lo, n):
        a = T.ATOMS[aid]
        if a.kind == 'in':
            for b in range(lo, lo + n):
                out[a.args, b] = a
            if len(out) > limit:
                raise CantEval('support')
            return
        if aid in seen:
            return
        seen.add(aid)
        k = a.kind
        if k in ('is',):
            pc(a.args[0])
        elif k in ('z', 'lt', 'lin', 'eqm'):
            for kk, co in a.args[1]:
                pc(kk)
        elif k == 'conj':
            for m, s in a.args:
                for i, l in s:
                    sl(i, l, 1)
        elif k == 'and':
            for s in a.args:
                for i, l in s:
                    sl(i, l, 1)
        elif k == 'ite':
            v(a.args[0])
            pc(a.args[1])
            pc(a.args[2])
        elif k in ('mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            v(a.args[0])
            v(a.args[1])
        elif k == 'sel' and a.args[0][0] == 'content':
            v(a.args[0][2])
            v(a.args[1])
        else:
            raise CantEval('support of ' + k)

    def pc(p):
        for i, l in p[2]:
            sl(i, l, p[0])

    def v(t):
        if isinstance(t, S):
            for p in t.ps:
                pc(p)
        elif not isinstance(t, int):
            raise CantEval('support')
    try:
        for t in ts:
            v(t)
    except CantEval:
        return None
    for (nm, b), a in out.items():
        if a.w is not None and ((a.lo or 0) != 0 or (a.hi is not None and a.hi != mask(a.w))):
            if any((nm, i) not in out for i in range(a.hi.bit_length())):
                return None
    return out


class Exact(Valuation):
    def __init__(self, bits):
        Valuation.__init__(self, 0)
        self.bits = bits        # name -> int

    def input(self, a):
        x = self.bits.get(a.args, 0)
        if not (a.lo or 0) <= x <= (a.hi if a.hi is not None else x):
            raise CantEval('range')
        return x

    def stream(self, name, off, n):
        return (self.bits.get(name, 0) >> 8 * off & mask(8 * n)).to_bytes(n, 'little')

    def with_iv(self, key, i):
        raise CantEval('iv')


def exhaust(a, b, assume=(), limit=16):
    """True / witness / None: equality of two terms decided by evaluating both for every value of the input bits they depend on"""
    s = support([a, b] + [c for c in assume if isinstance(c, S)], limit)
    if s is None:
        return None
    keys = sorted(s)
    for x in range(1 << len(keys)):
        bits = {}
        for i, (nm, bit) in enumerate(keys):
            if x >> i & 1:
                bits[nm] = bits.get(nm, 0) | 1 << bit
        e = Exact(bits)
        try:
            if not all(e.val(c) & 1 for c in assume):
                continue
            if e.val(a) != e.val(b):
                return e
        except CantEval as ex:
            if 'range' in str(ex):
                continue
            return None
    return True
