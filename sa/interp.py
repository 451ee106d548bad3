"""Abstract interpreter over LLVM IR in the value-flow domain (terms.py).

* control decided by the abstract state is followed; an undecided branch is
  analysed once per arm up to its immediate post-dominator and the arms are
  joined with gated (ite) values - the analysis never enumerates paths;
* a loop whose trip count is symbolic is summarised: the body is analysed once
  with a symbolic iteration number and its effect generalised (affine
  induction variables, element-wise stores);
* memory is byte precise, one abstract object per allocation site instance.
"""
import re
import sys
import time
from bisect import bisect_left, bisect_right, insort
from . import terms as T
from .terms import S, Top, Undecided, mask

sys.setrecursionlimit(100000)
DEADLINE = [float('inf')]


class _U:
    def __repr__(self):
        return 'UNDEF'


U = _U()


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'info')
    _n = 0

    def __init__(self, name, size, kind='obj', info=None):
        Obj._n += 1
        self.id = Obj._n
        self.name, self.size, self.kind, self.info = name, size, kind, info

    def __repr__(self):
        return '&%s' % self.name


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj.id, self.off))

    def __repr__(self):
        return '%r+%r' % (self.obj, self.off)


class Fn:
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name and o.fn is self.fn

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '@' + self.name


class Agg(tuple):
    pass


def norm_off(o):
    """offsets: python int (signed) or S64"""
    if isinstance(o, int):
        return o
    return o


def oadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = T.add(a & mask(64) if isinstance(a, int) else a, b & mask(64) if isinstance(b, int) else b, 64)
    if isinstance(r, int):
        return T.tosigned(r, 64)
    return r


def osub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    r = T.sub(a & mask(64) if isinstance(a, int) else a, b & mask(64) if isinstance(b, int) else b, 64)
    if isinstance(r, int):
        return T.tosigned(r, 64)
    return r


def oform(o):
    if isinstance(o, int):
        return o, {}
    return T.int_form_signed(o, 64)


# ---------------------------------------------------------------- memory
class CMem:
    """constant-size object"""
    __slots__ = ('n', 'd', 'st', 'default', 'frozen')

    def __init__(self, n, default=U):
        self.n = n
        self.d = {}
        self.st = []
        self.default = default    # U | int byte | ('in', atom, base)
        self.frozen = None

    def clone(self):
        c = CMem(self.n, self.default)
        c.d = dict(self.d)
        c.st = list(self.st)
        return c

    def gap(self, off, n):
        df = self.default
        if df is U:
            return U
        if isinstance(df, int):
            return int.from_bytes(bytes([df]) * n, 'little')
        return T.seqbytes(df[1], off + df[2], n)

    def read(self, off, n, st=None):
        if isinstance(off, int):
            e = self.d.get(off)
            if e is not None and e[0] == n:
                return e[1]
            if off < 0 or off + n > self.n:
                return Top('out-of-bounds read at offset %d size %d of %d' % (off, n, self.n))
            segs = self.segs(off, n)
            return join_segs(segs, n)
        c = self.candidates(off, n)
        if c is not None:
            out = join_segs(self.segs(c[-1][1], n), n)
            for cond, o in c[:-1]:
                v = join_segs(self.segs(o, n), n)
                if not isinstance(v, (int, S)) or not isinstance(out, (int, S)):
                    return self.symread(off, n)
                out = T.ite(cond, v, out, 8 * n)
            if isinstance(out, (int, S)):
                return out
        return self.symread(off, n)

    def candidates(self, off, n):
        """[(condition, offset)] when the offset has few possible values, all inside the object"""
        if not isinstance(off, S):
            return None
        c, f = T.to_mod_form(off, off.w, off.w)
        bits = []
        for (k, m, sl), co in f.items():
            if len(bits) + k > 2:
                return None
            for i in range(k):
                bits.append((T.mk(1, [(1, (m >> i) & 1, tuple((a, lo + i) for a, lo in sl))]), co << i))
        out = []
        for pick in range(1 << len(bits)):
            conds = [b if (pick >> i) & 1 else T.bnot(b, 1) for i, (b, _) in enumerate(bits)]
            o = T.tosigned((c + sum(co for i, (_, co) in enumerate(bits) if (pick >> i) & 1)) & mask(off.w), off.w)
            if o < 0 or o + n > self.n:
                return None
            out.append((T.conj(conds), o))
        return out

    def symread(self, off, n):
        key = self.snapshot()
        if key is None:
            return Top('symbolic-offset read of mixed object')
        return T.from_atom(T.atom('sel', (key, off, n), 8 * n, 0, mask(8 * n)), 0, 8 * n)

    def snapshot(self):
        if self.frozen is not None:
            return self.frozen
        out = []
        for ln, v in self.segs(0, self.n):
            if isinstance(v, (int, S)):
                out.append((v, 8 * ln))
            else:
                return None
        return ('content', self.n, T.concat(out))

    def segs(self, off, n):
        """[(len, val)] covering [off, off+n)"""
        out = []
        st = self.st
        i = bisect_right(st, off) - 1
        pos = off
        end = off + n
        if i < 0:
            i = 0
        while pos < end:
            # advance to segment containing or after pos
            while i < len(st) and st[i] + self.d[st[i]][0] <= pos:
                i += 1
            if i >= len(st) or st[i] >= end:
                out.append((end - pos, self.gap(pos, end - pos)))
                pos = end
                break
            s = st[i]
            ln, v = self.d[s]
            if s > pos:
                out.append((s - pos, self.gap(pos, s - pos)))
                pos = s
            a = pos - s
            b = min(s + ln, end) - s
            if a == 0 and b == ln:
                out.append((ln, v))
            else:
                out.append((b - a, subval(v, ln, a, b - a)))
            pos = s + b
        return out

    def carve(self, off, n):
        st = self.st
        d = self.d
        end = off + n
        i = bisect_right(st, off) - 1
        if i >= 0:
            s = st[i]
            ln, v = d[s]
            if s + ln > off:
                # overlaps
                del st[i]
                del d[s]
                if s < off:
                    d[s] = (off - s, subval(v, ln, 0, off - s))
                    st.insert(i, s)
                    i += 1
                if s + ln > end:
                    d[end] = (s + ln - end, subval(v, ln, end - s, s + ln - end))
                    st.insert(i, end)
                    return
            else:
                i += 1
        else:
            i = 0
        while i < len(st) and st[i] < end:
            s = st[i]
            ln, v = d[s]
            del st[i]
            del d[s]
            if s + ln > end:
                d[end] = (s + ln - end, subval(v, ln, end - s, s + ln - end))
                st.insert(i, end)
                break

    def write(self, off, n, v, st=None):
        if not isinstance(off, int):
            c = self.candidates(off, n) if n and isinstance(v, (int, S)) else None
            if c is not None:
                old = [join_segs(self.segs(o, n), n) for _, o in c]
                if all(isinstance(x, (int, S)) or x is U for x in old):
                    for cond, o in c:
                        x = join_segs(self.segs(o, n), n)
                        self.write(o, n, T.ite(cond, v, uninit(None, o, n) if x is U else x, 8 * n))
                    return None
            # weak update: whole object unknown
            self.d = {}
            self.st = []
            self.d[0] = (self.n, Top('written at symbolic offset'))
            self.st = [0]
            return 'weak'
        if off < 0 or off + n > self.n:
            return 'oob'
        e = self.d.get(off)
        if e is not None and e[0] == n:
            self.d[off] = (n, v)
            return
        self.carve(off, n)
        self.d[off] = (n, v)
        insort(self.st, off)

    def copy_out(self, off, ln, st):
        if isinstance(off, int) and isinstance(ln, int):
            if off < 0 or off + ln > self.n:
                return [('v', ln, Top('out-of-bounds read [%d,%d) of %d' % (off, off + ln, self.n)))]
            return [('v', n, v) for n, v in self.segs(off, ln)]
        if isinstance(ln, int):
            return [('v', ln, self.read(off, ln) if ln else 0)]
        # symbolic length: only from a single input sequence
        if self.default is not U and isinstance(self.default, tuple) and not self.d:
            return [('s', ln, self.default[1], oadd(off, self.default[2]))]
        if isinstance(off, int) and off == self.n:
            return [('v', 0, 0)]
        if isinstance(off, int):
            key = self.snapshot()
            if key is not None:
                return [('s', ln, T.atom('prefixof', key, None), off)]
        return [('t', ln, Top('symbolic-length read of constant-size object'))]

    def copy_in(self, off, segs, st):
        if not isinstance(off, int):
            if isinstance(off, S) and all(sg[0] == 'v' and isinstance(sg[2], (int, S)) for sg in segs):
                n = sum(sg[1] for sg in segs)
                if n:
                    self.write(off, n, T.concat([(sg[2], 8 * sg[1]) for sg in segs if sg[1]]), st)
                return 'weak'
            self.write(off, 1, None)
            return 'weak'
        for sg in segs:
            if sg[0] == 'v':
                if sg[1]:
                    r = self.write(off, sg[1], sg[2])
                    if r:
                        return r
                    off += sg[1]
            elif sg[0] == 's' and isinstance(sg[1], int):
                v = T.seqbytes(sg[2], sg[3], sg[1]) if isinstance(sg[3], int) else \
                    T.from_atom(T.atom('at', (sg[2], sg[3], sg[1]), 8 * sg[1], 0, mask(8 * sg[1])), 0, 8 * sg[1])
                self.write(off, sg[1], v)
                off += sg[1]
            elif isinstance(sg[1], int):
                self.write(off, sg[1], Top('opaque'))
                off += sg[1]
            else:
                # symbolic-length write into constant-size object
                rest = self.n - off
                if rest > 0:
                    self.carve(off, rest)
                    self.d[off] = (rest, Top('symbolic-length write'))
                    insort(self.st, off)
                return 'symlen'


_un = [0]


def uninit(obj, off, n):
    """an indeterminate byte is an arbitrary value of its own"""
    _un[0] += 1
    return T.from_atom(T.atom('in', 'uninitialised#%d' % _un[0], 8 * n, 0, mask(8 * n)), 0, 8 * n)


def subval(v, ln, a, n):
    if v is U:
        return U
    if isinstance(v, (int, S)):
        return T.extract(v, 8 * ln, 8 * a, 8 * n)
    if isinstance(v, Top):
        return v
    if isinstance(v, Ptr):
        return T.extract(p2i(v), 64, 8 * a, 8 * n)
    return Top('partial read of %r' % (v,))


def join_segs(segs, n):
    if len(segs) == 1:
        return segs[0][1]
    parts = []
    for ln, v in segs:
        if v is U:
            v = uninit(None, 0, ln)
        if isinstance(v, Ptr):
            v = p2i(v)
        if not isinstance(v, (int, S)):
            return v if isinstance(v, Top) else Top('mixed read')
        parts.append((v, 8 * ln))
    return T.concat(parts)


def p2i(p):
    if isinstance(p, Ptr):
        a = T.atom('addr', p.obj, 64, 1, mask(64))
        off = p.off
        return T.add(T.from_atom(a, 0, 64), off & mask(64) if isinstance(off, int) else off, 64)
    return p


def i2p(v):
    if isinstance(v, int):
        return v
    if isinstance(v, S):
        c, d = T.to_mod_form(v, 64, 64)
        ad = None
        for k, co in d.items():
            if len(k[2]) == 1 and co == 1 and k[0] == 64 and k[1] == 0:
                a = T.ATOMS[k[2][0][0]]
                if a.kind == 'addr' and k[2][0][1] == 0:
                    ad = (k, a)
        if ad:
            d = dict(d)
            del d[ad[0]]
            off = T.from_form(c, d, 64)
            if isinstance(off, int):
                off = T.tosigned(off, 64)
            return Ptr(ad[1].args, off)
    return v


class RMem:
    """object of symbolic size: a rope of segments
       ('v', n, val) ('s', len, atom, off) ('u', len) ('f', len, byte) ('t', len, Top)"""
    __slots__ = ('segs', 'frozen')

    def __init__(self, segs):
        self.segs = segs
        self.frozen = None

    def clone(self):
        return RMem(list(self.segs))

    def snapshot(self):
        return None

    def split(self, off, st):
        """make off a boundary; return index of the segment starting at off (or None)"""
        pos = 0
        i = 0
        while i < len(self.segs):
            d = osub(off, pos)
            if isinstance(d, int) and d == 0:
                return i
            sg = self.segs[i]
            ln = sg[1]
            rem = osub(ln, d)   # ln - d
            if isinstance(rem, int) and rem == 0:
                return i + 1
            c, f = oform(d)
            lo, hi = T.form_range(c, f, st.rng)
            c2, f2 = oform(rem)
            lo2, hi2 = T.form_range(c2, f2, st.rng)
            if lo2 <= 0 and hi2 <= 0:
                # segment entirely before off
                pos = oadd(pos, ln)
                i += 1
                continue
            if lo >= 0 and lo2 >= 0:
                a, b = split_seg(sg, d, rem)
                if a is None:
                    return None
                self.segs[i:i + 1] = [a, b]
                return i + 1
            if isinstance(ln, int) and lo >= ln:
                pos = oadd(pos, ln)
                i += 1
                continue
            return None
        d = osub(off, pos)
        if isinstance(d, int) and d == 0:
            return i
        return None

    def read(self, off, n, st):
        # element read inside an 's' segment at symbolic/const offset without splitting
        pos = 0
        for sg in self.segs:
            d = osub(off, pos)
            ln = sg[1]
            c, f = oform(d)
            lo, hi = T.form_range(c, f, st.rng)
            inside = lo >= 0
            if inside:
                rem = osub(osub(ln, d), n)
                c2, f2 = oform(rem)
                lo2, hi2 = T.form_range(c2, f2, st.rng)
                if hi2 < 0:
                    pos = oadd(pos, ln)
                    continue
                if isinstance(ln, int) and not isinstance(d, int) and lo >= ln:
                    pos = oadd(pos, ln)
                    continue
                return seg_read(sg, d, n)
            return Top('symbolic offset read not resolved')
        return Top('out-of-bounds read (beyond symbolic size)')

    def norm(self, st):
        if st.eqs:
            self.segs = [(sg[0], st.simp(sg[1])) + tuple(sg[2:]) for sg in self.segs]

    def write(self, off, n, v, st):
        self.norm(st)
        i = self.split(off, st)
        if i is None:
            self.segs = [('t', total_len(self.segs), Top('weak rope write'))]
            return 'weak'
        j = self.split(oadd(off, n), st)
        if j is None:
            self.segs = [('t', total_len(self.segs), Top('weak rope write'))]
            return 'weak'
        self.segs[i:j] = [('v', n, v)]

    def copy_out(self, off, ln, st):
        if isinstance(ln, int) and ln == 0:
            return []
        if any(isinstance(sg[1], Top) for sg in self.segs):
            return [('t', ln, Top('rope of unknown shape'))]
        c = self.clone()
        i = c.split(off, st)
        j = c.split(oadd(off, ln), st) if i is not None else None
        if i is None or j is None:
            # inside a single sequence?
            r = self.read(off, ln, st) if isinstance(ln, int) else None
            if r is not None:
                return [('v', ln, r)]
            if i is not None:
                rest = canon_segs(c.segs[i:], st)
                if rest and all(sg[0] in ('b', 's', 'f') for sg in rest):
                    return [('s', ln, T.atom('prefixof', ('rope',) + rest, None), 0)]
            return [('t', ln, Top('rope range not resolved'))]
        return c.segs[i:j]

    def copy_in(self, off, segs, st):
        ln = total_len(segs)
        self.norm(st)
        i = self.split(off, st)
        j = self.split(oadd(off, ln), st) if i is not None else None
        if i is None or j is None:
            self.segs = [('t', total_len(self.segs), Top('weak rope write'))]
            return 'weak'
        self.segs[i:j] = list(segs)


def total_len(segs):
    t = 0
    for s in segs:
        t = oadd(t, s[1])
    return t


def split_seg(sg, d, rem):
    k = sg[0]
    if k == 'v':
        if not isinstance(d, int):
            return None, None
        return ('v', d, subval(sg[2], sg[1], 0, d)), ('v', rem, subval(sg[2], sg[1], d, rem))
    if k == 's':
        return ('s', d, sg[2], sg[3]), ('s', rem, sg[2], oadd(sg[3], d))
    if k == 'u':
        return ('u', d), ('u', rem)
    if k == 'f':
        return ('f', d, sg[2]), ('f', rem, sg[2])
    return (k, d, sg[2]), (k, rem, sg[2])


def seg_read(sg, d, n):
    k = sg[0]
    if k == 'v':
        if isinstance(d, int):
            return subval(sg[2], sg[1], d, n)
        if isinstance(sg[2], (int, S)):
            key = ('content', sg[1], sg[2])
            return T.from_atom(T.atom('sel', (key, d, n), 8 * n, 0, mask(8 * n)), 0, 8 * n)
        return Top('symbolic read')
    if k == 's':
        o = oadd(sg[3], d)
        if isinstance(o, int):
            return T.seqbytes(sg[2], o, n)
        return T.from_atom(T.atom('at', (sg[2], o, n), 8 * n, 0, mask(8 * n)), 0, 8 * n)
    if k == 'u':
        return uninit(None, 0, n)
    if k == 'f':
        return int.from_bytes(bytes([sg[2]]) * n, 'little')
    return sg[2]


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'owned', 'facts', 'rng', 'eqs', 'pc', 'rec', 'log')

    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.facts = {}
        self.rng = {}
        self.eqs = {}
        self.pc = ()
        self.rec = None
        self.log = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.owned = set()
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.eqs = dict(self.eqs)
        s.pc = self.pc
        s.rec = self.rec.fork() if self.rec is not None else None
        s.log = self.log
        return s

    def w(self, obj):
        m = self.mem[obj]
        if obj.id not in self.owned:
            m = self.mem[obj] = m.clone()
            self.owned.add(obj.id)
        return m

    # ------------------------------------------------ facts
    def decide(self, c):
        if isinstance(c, int):
            return c
        m, sl = T.lit(c)
        f = self.facts.get(sl)
        if f is not None:
            return f ^ m
        if len(sl) == 1:
            a = T.ATOMS[sl[0][0]]
            r = None
            if a.kind == 'conj':
                allt = True
                for l in a.args:
                    v = self.decide(T.unlit(l))
                    if v == 0:
                        return 0 ^ m
                    if v is None:
                        allt = False
                if allt:
                    r = 1
            elif a.kind == 'lt' and self.rng:
                lo, hi = T.form_range(a.args[0], dict(a.args[1]), self.rng)
                if hi < 0:
                    r = 1
                elif lo >= 0:
                    r = 0
            elif a.kind == 'z' and self.rng:
                lo, hi = T.form_range(a.args[0], dict(a.args[1]), self.rng)
                if lo > 0 or hi < 0:
                    r = 0
                elif lo == hi == 0:
                    r = 1
            elif a.kind == 'is' and self.rng:
                rg = self.rng.get(a.args[0])
                if rg:
                    if a.args[1] < rg[0] or a.args[1] > rg[1]:
                        r = 0
                    elif rg[0] == rg[1]:
                        r = 1
            if r is not None:
                return r ^ m
        return None

    def assume(self, c):
        if isinstance(c, int):
            return
        m, sl = T.lit(c)
        self.facts[sl] = 1 ^ m
        self.pc = self.pc + (c,)
        if len(sl) != 1:
            return
        a = T.ATOMS[sl[0][0]]
        val = 1 ^ m
        if a.kind == 'conj':
            if val:
                for l in a.args:
                    self.assume(T.unlit(l))
        elif a.kind == 'is':
            k, x = a.args
            lo, hi = self.rng.get(k) or T.piece_range(k)
            if val:
                self.rng[k] = (x, x)
                self.eqs[k] = x
                self._derive_eq(k, x)
            else:
                if x == lo:
                    self.rng[k] = (lo + 1, hi)
                elif x == hi:
                    self.rng[k] = (lo, hi - 1)
        elif a.kind == 'lt':
            c0, d = a.args
            if len(d) == 1:
                k, co = d[0]
                lo, hi = self.rng.get(k) or T.piece_range(k)
                # co*k + c0 < 0 (co>0)
                if val:
                    b = (-c0 - 1) // co
                    hi = min(hi, b)
                else:
                    b = -(c0 // co)
                    lo = max(lo, b)
                self.rng[k] = (lo, hi)
                if lo == hi:
                    self.eqs[k] = lo
                    self._derive_eq(k, lo)
        elif a.kind == 'z':
            c0, d = a.args
            if len(d) == 1:
                k, co = d[0]
                if (-c0) % co == 0:
                    x = -c0 // co
                    if not val:
                        lo, hi = self.rng.get(k) or T.piece_range(k)
                        if x == lo:
                            lo += 1
                        elif x == hi:
                            hi -= 1
                        else:
                            return
                        self.rng[k] = (lo, hi)
                        if lo != hi:
                            return
                        x = lo
                    self.rng[k] = (x, x)
                    self.eqs[k] = x

    def _derive_eq(self, k, x):
        n, m, sl = k
        if len(sl) == 1 and sl[0][1] == 0:
            a = T.ATOMS[sl[0][0]]
            if a.kind == 'lin' and len(a.args[1]) == 1:
                kk, co = a.args[1][0]
                q = x - a.args[0]
                if q % co == 0 and a.lo >= 0:
                    self.eqs[kk] = q // co
                    self.rng[kk] = (q // co, q // co)

    def simp(self, v):
        if not self.eqs or not isinstance(v, S):
            return v
        ps = []
        ch = False
        for p in v.ps:
            x = self.eqs.get((p[0], 0, p[2])) if p[2] else None
            if x is not None:
                ps.append((p[0], x ^ p[1], ()))
                ch = True
            else:
                if len(p[2]) == 1 and T.ATOMS[p[2][0][0]].kind == 'lin':
                    a = T.ATOMS[p[2][0][0]]
                    if any(k in self.eqs for k, _ in a.args[1]):
                        c = a.args[0]
                        d = {}
                        for k, co in a.args[1]:
                            if k in self.eqs:
                                c += co * self.eqs[k]
                            else:
                                d[k] = co
                        nv = T.from_form(c, d, a.w)
                        nv = T.extract(nv, a.w, p[2][0][1], p[0]) if not isinstance(nv, int) or True else nv
                        nv = T.bxor(nv, p[1], p[0])
                        ps.extend(T.pieces(nv, p[0]))
                        ch = True
                        continue
                ps.append(p)
        return T.mk(v.w, ps) if ch else v


class Exc:
    __slots__ = ('type', 'state', 'pc', 'where', 'obj')

    def __init__(self, type, state, pc, where, obj=None):
        self.type, self.state, self.pc, self.where, self.obj = type, state, pc, where, obj

    def __repr__(self):
        return 'Exc(%s at %s)' % (self.type, self.where)


class Frame:
    __slots__ = ('fn', 'regs', 'nest', 'eng', 'callsite', 'parent', 'cur', 'bn', 'stk')

    def __init__(self, fn, parent=None, callsite=None):
        self.fn = fn
        self.regs = {}
        self.nest = {}
        self.parent = parent
        self.callsite = callsite
        self.cur = None
        self.bn = None
        self.stk = 0


class Unresolved(Undecided):
    pass


DEAD = ('dead',)


OSTREAM = re.compile(r'^(std::ostream&? |std::basic_ostream<.*>& )?(std::(basic_)?(ostream|ofstream|filebuf)(<.*?>)?::|std::(__ostream_insert|operator<< ?<|endl|flush))|^(fopen|fclose|fflush|syslog|openlog)$')


LIVE = []        # engines made by the section in progress


class Engine:
    def __init__(self, program, models=None, max_steps=60_000_000, unroll=700):
        self.prog = program
        self.models = dict(BASE_MODELS)
        if models:
            self.models.update(models)
        self.exc = []
        self.events = []
        self.steps = 0
        self.max_steps = max_steps
        self.spin = SPIN
        self.unroll = unroll
        self.globals = {}
        self.frame = None
        self.trace_calls = None
        self.functions_seen = set()
        self.oob = []
        self.maybe_oob = []
        self.clock = 20000
        LIVE.append(self)
        self.outputs = []        # (function, where, values) handed to output functions and exception texts
        self.callhook = None
        self.binop = {}
        self.symload = None
        self.max_depth = 120
        self.peak = 0            # largest stack use seen, in bytes
        self.peak_at = None

    # ------------------------------------------------ helpers for clients
    def new_obj(self, st, name, size, default=U, kind='obj', info=None):
        o = Obj(name, size, kind, info)
        if isinstance(size, int):
            st.mem[o] = CMem(size, default)
        else:
            if default is U:
                st.mem[o] = RMem([('u', size)])
            elif isinstance(default, int):
                st.mem[o] = RMem([('f', size, default)])
            else:
                st.mem[o] = RMem([('s', size, default[1], default[2])])
        st.owned.add(o.id)
        return o

    def input_obj(self, st, name, size, kind='in'):
        a = T.seq(name, None)
        return self.new_obj(st, name, size, ('in', a, 0), kind)

    def where(self):
        out = []
        f = self.frame
        while f is not None:
            i = f.cur
            l = f.fn.mod.loc(i.dbg) if i is not None and i.dbg else f.fn.loc()
            out.append('%s (%s:%s)' % (self.prog.dem(f.fn.name), (l[0] or '?') if l else '?', l[1] if l else '?'))
            f = f.parent
        return ' <- '.join(out)

    def site(self):
        f = self.frame
        if f is None:
            return ('?', 0)
        i = f.cur
        if i is not None and i.dbg:
            return f.fn.mod.loc(i.dbg)
        return f.fn.loc() or ('?', 0)

    # ------------------------------------------------ values
    def val(self, fr, op, ty=None):
        k = op[0]
        if k == 'l':
            return fr.regs[op[1]]
        if k == 'k':
            return op[1]
        return self.const(fr.fn.mod, op, ty)

    def const(self, mod, op, ty=None):
        k = op[0]
        if k == 'k':
            return op[1]
        if k == 'g':
            return self.glob(mod, op[1])
        if k == 'undef':
            t = mod.resolve(op[1])
            if t[0] == 'struct':
                return Agg([U] * len(t[1]))
            if t[0] == 'vec' or t[0] == 'arr':
                return Agg([U] * t[1])
            return U
        if k == 'zero':
            t = mod.resolve(op[1])
            if t[0] == 'struct':
                return Agg([self.const(mod, ('zero', e)) for e in t[1]])
            if t[0] in ('vec', 'arr'):
                return Agg([self.const(mod, ('zero', t[2]))] * t[1])
            if t[0] in ('double', 'float'):
                return 0.0
            return 0
        if k == 'agg':
            return Agg([self.const(mod, v, t) for t, v in op[2]])
        if k == 'bytes':
            return Agg(list(op[1]))
        if k == 'gepc':
            base = self.const(mod, op[2][0][1])
            const, dyn = mod.gep_plan(op[1], [v for t, v in op[2][1:]], [t for t, v in op[2][1:]])
            if dyn:
                raise Undecided('gep const')
            if isinstance(base, Ptr):
                return Ptr(base.obj, oadd(base.off, const))
            if isinstance(base, int):
                return base + const
            return base
        if k == 'castc':
            v = self.const(mod, op[3], op[2])
            if op[1] == 'ptrtoint':
                return p2i(v)
            if op[1] == 'trunc':
                return T.trunc(v, op[2][1], op[4][1])
            return v
        if k == 'binc':
            a = self.const(mod, op[3], op[2])
            b = self.const(mod, op[4], op[2])
            if op[1] == 'sub':
                return T.sub(p2i(a), p2i(b), op[2][1])
            if op[1] == 'add':
                return T.add(p2i(a), p2i(b), op[2][1])
        raise Undecided('const %r' % (op,))

    def glob(self, mod, name):
        name = mod.aliases.get(name, name)
        f = mod.funcs.get(name)
        if f is None:
            f = self.prog.external(name)
        if f is not None:
            return Fn(f, name)
        if name in mod.decls:
            return Fn(None, name)
        key = (mod.path, name)
        o = self.globals.get(key)
        if o is None:
            m2, text = mod, mod.globals.get(name)
            if text is None or text.startswith('external') or ' external ' in text.split('global')[0].split('constant')[0]:
                r = self.prog.find_global(name)
                if r is not None:
                    m2, text = r
            k2 = (m2.path, name)
            o = self.globals.get(k2)
            if o is None:
                o = self._mkglobal(m2, name, text)
                self.globals[k2] = o
            self.globals[key] = o
        return Ptr(o, 0)

    def _mkglobal(self, mod, name, text):
        from .ir import P, TOK
        if text is None:
            o = Obj('@' + name, 1 << 20, 'global')
            o.info = ('ext', name)
            return o
        p = P(TOK.findall(text), mod)
        isconst = False
        while True:
            p.skip_attrs()
            x = p.peek()
            if x in ('constant', 'global'):
                isconst = x == 'constant'
                p.next()
                break
            if x == '':
                break
            p.next()
        t = p.type()
        n = mod.size(t)
        o = Obj('@' + name, n, 'const' if isconst else 'global')
        init = None
        if p.peek() not in (',', ''):
            try:
                init = p.value(t)
            except SyntaxError:
                init = None
        o.info = (mod, t, init)
        return o

    def global_mem(self, o):
        m = CMem(o.size, 0 if o.info and o.info[0] != 'ext' else U)
        if o.info and o.info[0] != 'ext':
            mod, t, init = o.info
            if init is None:
                m = CMem(o.size, ('in', T.seq('glob:' + o.name), 0))
            else:
                self._fill(m, mod, t, init, 0)
            if o.kind == 'const':
                key = m.snapshot() if o.size <= 1 << 16 else None
                m.frozen = key if key is not None and isinstance(key[2], int) else ('const', o.name)
        return m

    def _fill(self, m, mod, t, init, off):
        t = mod.resolve(t)
        k = init[0]
        if k in ('zero',):
            return
        if k == 'undef':
            return
        if k == 'bytes':
            m.write(off, len(init[1]), int.from_bytes(init[1], 'little'))
            return
        if k == 'agg':
            if t[0] == 'struct':
                for i, (et, ev) in enumerate(init[2]):
                    self._fill(m, mod, et, ev, off + mod.field_off(t, i))
            else:
                sz = mod.size(t[2])
                for i, (et, ev) in enumerate(init[2]):
                    self._fill(m, mod, et, ev, off + i * sz)
            return
        v = self.const(mod, init, t)
        m.write(off, mod.size(t), v)

    def getmem(self, st, o):
        m = st.mem.get(o)
        if m is None:
            if o.kind in ('const', 'global'):
                m = st.mem[o] = self.global_mem(o)
            else:
                raise Undecided('no memory for %r' % o)
        return m

    # ------------------------------------------------ memory access
    def load(self, st, p, n, ty=None):
        if not isinstance(p, Ptr):
            p = i2p(p)
            if not isinstance(p, Ptr):
                if p == 0:
                    self.note_oob(st, 'read', 'of %s bytes through a null pointer' % n)
                return Top('load through non-pointer %r' % (p,))
        m = self.getmem(st, p.obj)
        off = p.off
        if not isinstance(off, int):
            off = st.simp(off)
            if isinstance(off, int):
                off = T.tosigned(off, 64)
        if self.symload is not None and not isinstance(off, int):
            r = self.symload(self, st, p.obj, off, n)
            if r is not None:
                return r
        rec = st.rec
        if rec is not None:
            r = rec.load(self, st, p.obj, off, n)
            if r is not None:
                return r
        v = m.read(off, n, st)
        if isinstance(v, Top) and v.why.startswith('out-of-bounds'):
            self.note_oob(st, 'read', v.why)
        if v is U:
            return uninit(p.obj, off, n)
        return v

    def note_oob(self, st, kind, text):
        """an access that leaves its object on a path that some input takes"""
        x = (kind, self.where(), text)
        if st.pc:
            from . import rand as R
            if next(R.valuations([], 24, None, st.pc), None) is None:
                self.maybe_oob.append(x)
                return
        self.oob.append(x)

    def store(self, st, p, n, v):
        if not isinstance(p, Ptr):
            p = i2p(p)
            if not isinstance(p, Ptr):
                if p == 0:
                    self.note_oob(st, 'write', 'of %s bytes through a null pointer' % n)
                raise Undecided('store through non-pointer %r at %s' % (p, self.where()))
        off = p.off
        if not isinstance(off, int):
            off = st.simp(off)
            if isinstance(off, int):
                off = T.tosigned(off, 64)
        if isinstance(v, Agg):
            raise Undecided('aggregate store')
        rec = st.rec
        if rec is not None and rec.store(self, st, p.obj, off, n, v):
            return
        self.getmem(st, p.obj)
        m = st.w(p.obj)
        r = m.write(off, n, v, st)
        if r == 'oob':
            self.note_oob(st, 'write', 'write at offset %s size %s of object %s of size %s' % (off, n, p.obj.name, p.obj.size))

    def copy_out(self, st, p, ln):
        p = i2p(p)
        if not isinstance(p, Ptr):
            if isinstance(ln, int) and ln == 0:
                return []
            if p == 0 and isinstance(ln, int):
                self.note_oob(st, 'read', 'of %s bytes through a null pointer' % ln)
            return [('t', ln, Top('read through %r' % (p,)))]
        m = self.getmem(st, p.obj)
        off = st.simp(p.off)
        ln = st.simp(ln)
        if isinstance(off, int) and not isinstance(p.off, int):
            off = T.tosigned(off, 64)
        if st.rec is not None:
            r = st.rec.copy_out(self, st, p.obj, off, ln)
            if r is not None:
                return r
        segs = m.copy_out(off, ln, st)
        for sg in segs:
            if sg[0] in ('v', 't') and isinstance(sg[2], Top) and sg[2].why.startswith('out-of-bounds'):
                self.note_oob(st, 'read', sg[2].why + ' object ' + p.obj.name)
        return segs

    def copy_in(self, st, p, segs):
        p = i2p(p)
        if not isinstance(p, Ptr):
            if p == 0 and all(isinstance(s[1], int) and s[1] == 0 for s in segs):
                return
            if p == 0 and all(isinstance(s[1], int) for s in segs):
                self.note_oob(st, 'write', 'of %s bytes through a null pointer' % sum(s[1] for s in segs))
            raise Undecided('copy to %r' % (p,))
        off = st.simp(p.off)
        if isinstance(off, int) and not isinstance(p.off, int):
            off = T.tosigned(off, 64)
        if st.rec is not None and st.rec.copy_in(self, st, p.obj, off, segs):
            return
        self.getmem(st, p.obj)
        m = st.w(p.obj)
        r = m.copy_in(off, segs, st)
        if r == 'oob':
            self.note_oob(st, 'write', 'write of %s bytes at offset %s of object %s of size %s' %
                             (total_len(segs), off, p.obj.name, p.obj.size))

    def bytes_of(self, st, p, n):
        """constant-length read as a value of 8n bits"""
        segs = self.copy_out(st, p, n)
        return segs_value(segs)

    def cstr(self, st, p):
        p = i2p(p)
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return None
        out = bytearray()
        m = self.getmem(st, p.obj)
        i = p.off
        while True:
            v = m.read(i, 1, st)
            if not isinstance(v, int):
                return None
            if v == 0:
                return out.decode('latin1')
            out.append(v)
            i += 1
            if len(out) > 10000:
                return None

    # ------------------------------------------------ calls
    def call(self, fn, args, st, callsite=None):
        """abstractly run function fn; returns (retval, state) or None if it never returns"""
        fn.parse()
        self.functions_seen.add((fn.mod.path, fn.name))
        fr = Frame(fn, self.frame, callsite)
        for (nm, t, info), a in zip(fn.params, args):
            fr.regs[nm] = a
        save = self.frame
        self.frame = fr
        depth = 0
        f = fr
        while f is not None:
            depth += 1
            f = f.parent
        if depth > self.max_depth:
            raise Undecided('call depth')
        try:
            r = self.run(fr, fn.entry, None, st, None)
        finally:
            self.frame = save
        if r[0] == 'dead':
            return None
        return r[1], r[2]

    def docall(self, fr, ins, st):
        x = ins.x
        c = x['callee']
        args = [self.val(fr, o, t) for o, t in zip(ins.ops, x['tys'])]
        if st.eqs:
            args = [st.simp(a) for a in args]
        if c[0] == 'g':
            name = c[1]
            f = None
            if name in fr.fn.mod.funcs:
                f = fr.fn.mod.funcs[name]
            name = fr.fn.mod.aliases.get(name, name)
        elif c[0] == 'asm':
            return None, st
        else:
            v = self.val(fr, c)
            if not isinstance(v, Fn):
                raise Undecided('indirect call through %r at %s' % (v, self.where()))
            name = v.name
            f = v.fn
        # models first
        md = self.lookup_model(name)
        if md is not None:
            r = md(self, fr, ins, args, st)
            if r is not NotImplemented:
                if r is DEAD:
                    return DEAD
                if isinstance(r, tuple) and not isinstance(r, Agg) and len(r) == 2 and isinstance(r[1], State):
                    return r
                return r, st
        if f is None:
            f = fr.fn.mod.funcs.get(name) or self.prog.external(name)
        if f is None:
            bb = fr.fn.blocks[fr.bn].insts if fr.bn else None
            if bb and bb[-1].op == 'unreachable':
                self.events.append(('panic', self.prog.dem(name), self.where(), st.pc))
                return DEAD
            raise Unresolved('call of unknown function %s at %s' % (self.prog.dem(name), self.where()))
        if self.callhook is not None:
            h = self.callhook(self, fr, ins, f, args, st)
            if h is not None:
                return h
        r = self.call(f, args, st, ins)
        if r is None:
            return DEAD
        return r

    def lookup_model(self, name):
        md = self.models.get(name)
        if md is not None:
            return md
        if name.startswith('llvm.'):
            for k in LLVM_PREFIX:
                if name.startswith(k):
                    return LLVM_PREFIX[k]
            raise Undecided('intrinsic ' + name)
        d = self.prog.base(name)
        md = self.models.get(d)
        if md is None and d.startswith('std::__'):
            md = STDCOPY.get(d)
            if md is None:
                md = STDCOPY[d] = stdcopy(d)
            if md:
                return md
            md = None
        if md is None and self.prog.external(name) is None and OSTREAM.search(self.prog.dem(name)):
            return m_ostream
        return md

    # ------------------------------------------------ running
    def phis(self, fr, b, prev):
        if not b.phis:
            return None
        regs = fr.regs
        vals = []
        for ph in b.phis:
            o = ph.x.get(prev)
            if o is None:
                raise Undecided('phi edge')
            vals.append((ph.res, self.val(fr, o, ph.ty)))
        return vals

    def run(self, fr, bn, prev, st, stop, skip_phis=False):
        fn = fr.fn
        blocks = fn.blocks
        H = HANDLERS
        while True:
            b = blocks[bn]
            if not skip_phis:
                vals = self.phis(fr, b, prev) if b.phis else None
                if vals:
                    regs = fr.regs
                    for k, v in vals:
                        regs[k] = v
            skip_phis = False
            if bn == stop:
                return ('stop', None, st)
            fr.bn = bn
            insts = b.insts
            n = len(insts) - 1
            self.steps += n + 1
            if self.steps > self.max_steps:
                raise Undecided('step budget')
            if self.steps >= self.clock:
                self.clock = self.steps + 20000
                if time.monotonic() > DEADLINE[0]:
                    raise Undecided('time budget')
            dead = False
            for ins in insts:
                op = ins.op
                h = H.get(op)
                if h is not None:
                    h(self, fr, ins, st)
                    continue
                fr.cur = ins
                if op == 'call':
                    r = self.docall(fr, ins, st)
                    if r is DEAD:
                        return DEAD
                    v, st = r
                    if ins.res is not None:
                        fr.regs[ins.res] = v
                    continue
                break
            # terminator
            op = ins.op
            if op == 'br':
                if not ins.ops:
                    prev, bn = bn, ins.x[0]
                    continue
                c = self.val(fr, ins.ops[0], T_I1)
                arms = [(c, ins.x[0]), (None, ins.x[1])]
                if ins.x[0] == ins.x[1]:
                    prev, bn = bn, ins.x[0]
                    continue
                if not isinstance(c, int):
                    if not isinstance(c, S):
                        raise Undecided('branch on %r at %s' % (c, self.where()))
                    c = st.simp(c)
                    dc = st.decide(c)
                    if dc is not None:
                        c = dc
                if isinstance(c, int):
                    to = ins.x[0] if c & 1 else ins.x[1]
                    if fn.inner.get(bn) == bn:
                        # a long counted loop is summarised after all
                        spin = fr.nest.get(('spin', bn), 0) + 1
                        if to not in fn.loops[bn]:
                            spin = 0
                        fr.nest['spin', bn] = spin
                        if spin in self.spin:
                            r = self.loop_exit(fr, bn, [(c & 1, ins.x[0]), (1 - c & 1, ins.x[1])], st)
                            if r is not None:
                                fr.nest['spin', bn] = 0
                                prev, bn, st = r
                                continue
                    prev, bn = bn, to
                    continue
                arms = [(c, ins.x[0]), (T.bnot(c, 1), ins.x[1])]
            elif op == 'switch':
                v = self.val(fr, ins.ops[0], ins.ty)
                v = st.simp(v)
                if isinstance(v, int):
                    d, cases = ins.x
                    t = d
                    for k, dest in cases:
                        if k == v:
                            t = dest
                            break
                    prev, bn = bn, t
                    continue
                if not isinstance(v, S):
                    raise Undecided('switch on %r at %s' % (v, self.where()))
                d, cases = ins.x
                bydest = {}
                allc = []
                for k, dest in cases:
                    cc = T.eq(v, k, ins.ty[1])
                    bydest.setdefault(dest, []).append(cc)
                    allc.append(cc)
                arms = []
                dflt = T.conj([T.bnot(x, 1) for x in allc])
                for dest, cs in bydest.items():
                    if dest != d:
                        arms.append((T.disj(cs), dest))
                dc = T.disj([dflt] + bydest.get(d, []))
                arms.append((dc, d))
                arms2 = []
                for c, dest in arms:
                    z = st.decide(c)
                    if z == 0:
                        continue
                    if z == 1:
                        arms2 = [(1, dest)]
                        break
                    arms2.append((c, dest))
                arms = arms2
                if len(arms) == 1:
                    prev, bn = bn, arms[0][1]
                    continue
            elif op == 'ret':
                v = self.val(fr, ins.ops[0], ins.ty) if ins.ops else None
                if ins.ops and st.eqs:
                    v = st.simp(v)
                return ('ret', v, st)
            elif op == 'unreachable':
                return DEAD
            elif op == 'resume':
                v = self.val(fr, ins.ops[0])
                ex = v[0] if isinstance(v, Agg) else None
                if isinstance(ex, Exc):
                    ex2 = Exc(ex.type, st, st.pc, ex.where, ex.obj)
                    self.exc.append(ex2)
                return DEAD
            elif op == 'invoke':
                fr.cur = ins
                mark = len(self.exc)
                pre = None
                r = self.docall(fr, ins, st)
                newexc = self.exc[mark:]
                if not newexc:
                    if r is DEAD:
                        return DEAD
                    v, st = r
                    if ins.res is not None:
                        fr.regs[ins.res] = v
                    prev, bn = bn, ins.x['normal']
                    continue
                del self.exc[mark:]
                return self.invoke_join(fr, ins, bn, r, newexc, stop)
            else:
                raise Undecided('terminator ' + op)
            # ------------------------------------------------ undecided branch
            hdr = fn.inner.get(bn)
            fr.cur = ins
            if hdr is not None and len(arms) == 2:
                r = self.loop_exit(fr, bn, arms, st)
                if r is not None:
                    prev, bn, st = r
                    continue
            key = bn
            cnt = fr.nest.get(key, 0)
            if cnt > self.unroll:
                raise Undecided('unbounded analysis of loop at %s' % self.where())
            fr.nest[key] = cnt + 1
            try:
                p = fn.ipdom.get(bn)
                res = self.branch(fr, bn, arms, st, p)
            finally:
                fr.nest[key] = cnt
            if res is DEAD:
                return DEAD
            kind, v, st = res
            if kind == 'ret':
                return res
            # at p with phis already set
            prev, bn = None, p
            skip_phis = True

    def branch(self, fr, bn, arms, st, p):
        outs = []
        regs0 = fr.regs
        st.pc = st.pc
        base = st
        for i, (c, dest) in enumerate(arms):
            st2 = base.fork()
            st2.assume(c)
            fr.regs = dict(regs0)
            # an arm whose assumption contradicts the facts is infeasible
            r = self.run(fr, dest, bn, st2, p)
            if r is DEAD:
                continue
            outs.append((c, r, fr.regs))
        if not outs:
            fr.regs = regs0
            return DEAD
        if len(outs) == 1:
            c, r, regs = outs[0]
            fr.regs = regs
            return r
        acc_c, acc, acc_regs = outs[-1]
        for c, r, regs in reversed(outs[:-1]):
            if r[0] != acc[0]:
                raise Undecided('mixed join at %s' % self.where())
            v = None
            stm = self.merge(c, r[2], acc[2], base)
            if r[0] == 'ret':
                v = self.vite(c, r[1], acc[1], fr.fn.rty, fr.fn.mod)
            m = {}
            if r[0] == 'stop':
                for k, x in regs.items():
                    y = acc_regs.get(k)
                    if y is None:
                        continue
                    if x is y:
                        m[k] = x
                    else:
                        m[k] = self.vite(c, x, y, fr.fn.regty.get(k), fr.fn.mod)
            acc_regs = m
            acc = (r[0], v, stm)
        fr.regs = acc_regs
        return acc

    def vite(self, c, a, b, ty, mod):
        if a is b:
            return a
        if ty is None:
            return self.vite2(c, a, b)
        t = mod.resolve(ty) if ty else None
        if isinstance(a, Agg) and isinstance(b, Agg):
            ts = t[1] if t and t[0] == 'struct' else [None] * len(a)
            return Agg([self.vite(c, x, y, tt, mod) if tt else self.vite2(c, x, y) for x, y, tt in zip(a, b, ts)])
        if t and t[0] == 'i' and isinstance(a, (int, S)) and isinstance(b, (int, S)):
            return T.ite(c, a, b, t[1])
        return self.vite2(c, a, b)

    def vite2(self, c, a, b):
        if a is b:
            return a
        try:
            if a == b:
                return a
        except Exception:
            pass
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a) == len(b):
            return Agg([self.vite2(c, x, y) for x, y in zip(a, b)])
        if isinstance(a, S) and isinstance(b, (S, int)):
            return T.ite(c, a, b, a.w)
        if isinstance(b, S) and isinstance(a, int):
            return T.ite(c, a, b, b.w)
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            return Top('join of constants of unknown width')
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            x, y = a.off, b.off
            return Ptr(a.obj, T.ite(c, x & mask(64) if isinstance(x, int) else x, y & mask(64) if isinstance(y, int) else y, 64))
        if a is U and isinstance(b, (int, S, Ptr)):
            return Top('maybe undefined')
        return Top('join of %r and %r' % (a, b))

    def merge(self, c, s1, s2, base):
        s = State()
        s.owned = set()
        s1.owned = set()
        s2.owned = set()
        s.mem = dict(s1.mem)
        for o, m2 in s2.mem.items():
            m1 = s1.mem.get(o)
            if m1 is None:
                s.mem[o] = m2
            elif m1 is not m2:
                s.mem[o] = self.merge_mem(c, m1, m2, s1, s2)
                s.owned.add(o.id)
        s.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
        s.rng = {}
        for k, (lo, hi) in s1.rng.items():
            r = s2.rng.get(k)
            if r:
                s.rng[k] = (min(lo, r[0]), max(hi, r[1]))
        s.eqs = {k: v for k, v in s1.eqs.items() if s2.eqs.get(k) == v}
        s.pc = base.pc + tuple(x for x in s1.pc[len(base.pc):] if x in s2.pc)
        if s1.rec is not None:
            s.rec = s1.rec.merge(self, c, s2.rec)
        if s1.log == s2.log:
            s.log = s1.log
        else:
            n = 0
            while n < len(s1.log) and n < len(s2.log) and s1.log[n] == s2.log[n]:
                n += 1
            s.log = s1.log[:n] + (('join', c, s1.log[n:], s2.log[n:]),)
        return s

    def merge_mem(self, c, a, b, s1=None, s2=None):
        if isinstance(a, CMem) and isinstance(b, CMem) and a.n == b.n:
            r = CMem(a.n, a.default)
            bounds = sorted(set([0, a.n]) | set(a.st) | set(b.st) | set(x + a.d[x][0] for x in a.st) | set(x + b.d[x][0] for x in b.st))
            for i in range(len(bounds) - 1):
                lo, hi = bounds[i], bounds[i + 1]
                ea, eb = a.d.get(lo), b.d.get(lo)
                n = hi - lo
                if ea is not None and ea[0] == n:
                    va = ea[1]
                else:
                    va = join_raw(a.segs(lo, n), n)
                if eb is not None and eb[0] == n:
                    vb = eb[1]
                else:
                    vb = join_raw(b.segs(lo, n), n)
                if va is U and vb is U:
                    continue
                if va is U and isinstance(vb, (int, S)):
                    va = uninit(None, lo, n)
                elif vb is U and isinstance(va, (int, S)):
                    vb = uninit(None, lo, n)
                if isinstance(va, (int, S)) and isinstance(vb, (int, S)):
                    v = T.ite(c, va, vb, 8 * n)
                elif va is vb:
                    v = va
                elif isinstance(va, Ptr) and isinstance(vb, Ptr):
                    v = self.vite2(c, va, vb)
                elif va == vb:
                    v = va
                else:
                    v = Top('join %r / %r' % (va, vb))
                r.d[lo] = (n, v)
                r.st.append(lo)
            return r
        if isinstance(a, RMem) and isinstance(b, RMem):
            if a.segs == b.segs:
                return a.clone()
            # normalise to a common split
            if len(a.segs) == len(b.segs) and all(x[1] == y[1] for x, y in zip(a.segs, b.segs)):
                out = []
                for x, y in zip(a.segs, b.segs):
                    z1 = s1 is not None and not isinstance(x[1], int) and s1.simp(x[1]) == 0
                    z2 = s2 is not None and not isinstance(x[1], int) and s2.simp(x[1]) == 0
                    if x == y:
                        out.append(x)
                    elif z1 or z2:
                        out.append(y if z1 else x)
                    elif x[0] == 'v' and y[0] == 'v' and isinstance(x[2], (int, S)) and isinstance(y[2], (int, S)):
                        out.append(('v', x[1], T.ite(c, x[2], y[2], 8 * x[1])))
                    else:
                        out.append(('t', x[1], Top('join of ropes')))
                return RMem(out)
            # one side has the region empty under its assumption (zero-length copy)
            for x, y, sx in ((a, b, s1), (b, a, s2)):
                if sx is not None:
                    z = [sg for sg in y.segs if not (isinstance(sx.simp(sg[1]), int) and sx.simp(sg[1]) == 0)]
                    if z == x.segs:
                        return y.clone()
            # one side agrees with the other once its own assumptions are applied to the other
            for x, y, sx in ((a, b, s1), (b, a, s2)):
                if sx is not None and sx.eqs and canon_segs(x.segs, sx) == canon_segs(y.segs, sx):
                    return y.clone()
            la, lb = total_len(a.segs), total_len(b.segs)
            return RMem([('t', la if la == lb else Top('len'), Top('join of ropes'))])
        return RMem([('t', 0, Top('join of memory kinds'))])

    def invoke_join(self, fr, ins, bn, r, newexc, stop):
        """normal continuation and exceptional continuations of an invoke"""
        fn = fr.fn
        # group: run the landing pad for each exception; catch blocks may rejoin
        p = self._pdom_full(fn, bn)
        regs0 = fr.regs
        outs = []
        if r is not DEAD:
            v, st = r
            fr.regs = dict(regs0)
            if ins.res is not None:
                fr.regs[ins.res] = v
            rr = self.run(fr, ins.x['normal'], bn, st, p)
            if rr is not DEAD:
                outs.append((None, rr, fr.regs))
        for ex in newexc:
            fr.regs = dict(regs0)
            st = ex.state.fork()
            fr.regs['<exc>'] = ex
            rr = self.run(fr, ins.x['unwind'], bn, st, p)
            if rr is not DEAD:
                c = T.conj(list(ex.pc)) if ex.pc else 1
                outs.append((c, rr, fr.regs))
        if not outs:
            fr.regs = regs0
            return DEAD
        acc = outs[0]
        for o in outs[1:]:
            c, rr, regs = o
            if rr[0] != acc[1][0]:
                raise Undecided('mixed exceptional join')
            if acc[0] is not None and len(outs) > 1 and acc is outs[0] and r is DEAD:
                pass
            stm = self.merge(c, rr[2], acc[1][2], acc[1][2])
            v = None
            if rr[0] == 'ret':
                v = self.vite(c, rr[1], acc[1][1], fn.rty, fn.mod)
            m = {}
            for k, x in regs.items():
                y = acc[2].get(k)
                if y is None:
                    continue
                m[k] = x if x is y else self.vite(c, x, y, fn.regty.get(k), fn.mod)
            acc = (acc[0], (rr[0], v, stm), m)
        kind, v, st = acc[1]
        fr.regs = acc[2]
        if kind == 'ret':
            return acc[1]
        return self.run(fr, p, None, st, stop, skip_phis=True) if p != stop else ('stop', None, st)

    def _pdom_full(self, fn, bn):
        return fn.ipdom.get(bn)

    # ------------------------------------------------ loops with symbolic trip count
    def loop_exit(self, fr, bn, arms, st):
        fn = fr.fn
        hdr = fn.inner[bn]
        body = fn.loops[hdr]
        if bn != hdr:
            return None
        ex = [d for c, d in arms if d not in body]
        if len(ex) != 1:
            return None
        return self.summarise(fr, hdr, arms, st)

    def summarise(self, fr, hdr, arms, st):
        fn = fr.fn
        body = fn.loops[hdr]
        b = fn.blocks[hdr]
        cont = [(c, d) for c, d in arms if d in body][0]
        exi = [(c, d) for c, d in arms if d not in body][0]
        for ins in b.insts[:-1]:
            if ins.op in ('store', 'call'):
                if ins.op == 'call' and ins.x['callee'][0] == 'g' and (self.is_pure(ins.x['callee'][1])):
                    continue
                return None
        # other exits must be dead (throwing)
        for x in body:
            for s in fn.blocks[x].succs:
                if s not in body and x != hdr and s in fn.live:
                    return None
        phis = b.phis
        inits = [fr.regs[p.res] for p in phis]
        depth = fr.nest.get('ivdepth', 0)
        f = fr.parent
        while f is not None:
            depth += f.nest.get('ivdepth', 0)
            f = f.parent
        regs0 = fr.regs
        # --- trial 1: find strides
        trial = {}
        for i, p in enumerate(phis):
            if p.ty[0] == 'i':
                trial[p.res] = T.var('lv%d.%d' % (depth, i), p.ty[1])
            elif p.ty[0] == 'ptr' and isinstance(inits[i], Ptr):
                trial[p.res] = Ptr(inits[i].obj, T.var('lv%d.%d' % (depth, i), 64))
            else:
                return None
        latches = [q for q in b.preds if q in body]
        if len(latches) != 1 and phis and False:
            return None
        fr.regs = dict(regs0)
        fr.regs.update(trial)
        st1 = st.fork()
        rec = Recorder(set(st.mem), parent=st.rec)
        st1.rec = rec
        fr.nest['ivdepth'] = fr.nest.get('ivdepth', 0) + 1
        mark = len(self.exc)
        oobmark, maybemark = len(self.oob), len(self.maybe_oob)
        try:
            try:
                self.exec_pure(fr, b, st1)
                r = self.run_body(fr, cont[1], hdr, st1)
            except Undecided:
                fr.regs = regs0
                del self.exc[mark:]
                del self.oob[oobmark:], self.maybe_oob[maybemark:]
                return None
            del self.exc[mark:]
            del self.oob[oobmark:], self.maybe_oob[maybemark:]
            if r is None:
                fr.regs = regs0
                return None
            strides = []
            for i, p in enumerate(phis):
                nv = fr.regs[p.res]
                old = trial[p.res]
                if isinstance(old, Ptr):
                    if not isinstance(nv, Ptr) or nv.obj is not old.obj:
                        fr.regs = regs0
                        return None
                    d = osub(nv.off, old.off)
                else:
                    if not isinstance(nv, (int, S)):
                        fr.regs = regs0
                        return None
                    d = T.sub(nv, old, p.ty[1])
                    if isinstance(d, int):
                        d = T.tosigned(d, p.ty[1])
                if not isinstance(d, int):
                    fr.regs = regs0
                    return None
                strides.append(d)
            # --- trial 2: symbolic iteration; counters narrower than 64 bits only for trip counts they can hold
            for hi in ((1 << 31) - 2, (1 << 41) - 2):
                iv = T.var('iv%d' % depth if hi < 1 << 32 else 'ivw%d' % depth, 64, hi=hi)
                cur = {}
                for p, i0, sd in zip(phis, inits, strides):
                    if isinstance(i0, Ptr):
                        cur[p.res] = Ptr(i0.obj, oadd(i0.off, T.mul(iv, sd & mask(64), 64)))
                    else:
                        w = p.ty[1]
                        cur[p.res] = T.add(i0, T.mul(T.trunc(iv, 64, w) if w < 64 else iv, sd & mask(w), w), w)
                fr.regs = dict(regs0)
                fr.regs.update(cur)
                st2 = st.fork()
                rec = Recorder(set(st.mem), parent=st.rec)
                st2.rec = rec
                try:
                    self.exec_pure(fr, b, st2)
                    term = b.insts[-1]
                    c = self.val(fr, term.ops[0], T_I1)
                    if term.x[0] == exi[1]:
                        c = T.bnot(c, 1)
                    N = solve_trip(c, iv, depth)
                    if isinstance(c, int) and c & 1 and hi < 1 << 32:
                        continue
                    if N is not None and hi < 1 << 32 and trip_max(N, st) > hi + 1:
                        continue
                    if N is None:
                        fr.regs = regs0
                        del self.exc[mark:]
                        return None
                    st2.assume(c) if isinstance(c, S) else None
                    r = self.run_body(fr, cont[1], hdr, st2)
                except Undecided:
                    fr.regs = regs0
                    del self.exc[mark:]
                    del self.oob[oobmark:], self.maybe_oob[maybemark:]
                    return None
                break
            rec = r[2].rec if r is not None else None
            if r is None or not rec.ok():
                fr.regs = regs0
                del self.exc[mark:]
                return None
            writes = rec.final(iv, depth)
            if writes is None:
                fr.regs = regs0
                del self.exc[mark:]
                return None
        finally:
            fr.nest['ivdepth'] -= 1
        # exceptions raised inside the body stay recorded with iv in their condition
        fr.regs = dict(regs0)
        for p, i0, sd in zip(phis, inits, strides):
            if isinstance(i0, Ptr):
                fr.regs[p.res] = Ptr(i0.obj, oadd(i0.off, T.mul(N, sd & mask(64), 64)))
            else:
                w = p.ty[1]
                fr.regs[p.res] = T.add(i0, T.mul(T.trunc(N, 64, w) if w < 64 else N, sd & mask(w), w), w)
        for o, off, seg in writes(N):
            self.copy_in(st, Ptr(o, off), [seg])
        self.exec_pure(fr, b, st)
        return hdr, exi[1], st

    def is_pure(self, name):
        return name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or name.startswith('llvm.umin') \
            or name.startswith('llvm.umax') or name.startswith('llvm.smax') or name.startswith('llvm.smin') or \
            self.prog.base(name) in self.prog.pure

    def exec_pure(self, fr, b, st):
        for ins in b.insts[:-1]:
            h = HANDLERS.get(ins.op)
            if h:
                h(self, fr, ins, st)
            elif ins.op == 'call':
                fr.cur = ins
                r = self.docall(fr, ins, st)
                if ins.res is not None:
                    fr.regs[ins.res] = r[0]

    def run_body(self, fr, start, hdr, st):
        save = fr.fn.ipdom
        r = self.run(fr, start, hdr, st, hdr)
        if r is DEAD or r[0] != 'stop':
            return None
        return r


def join_raw(segs, n):
    if len(segs) == 1:
        return segs[0][1]
    if all(v is U for _, v in segs):
        return U
    return join_segs(segs, n)


def segs_value(segs):
    parts = []
    for sg in segs:
        if sg[0] == 'v':
            if sg[1] == 0:
                continue
            v = sg[2]
            if isinstance(v, Ptr):
                v = p2i(v)
            if v is U:
                v = uninit(None, 0, sg[1])
            if not isinstance(v, (int, S)):
                return v
            parts.append((v, 8 * sg[1]))
        elif sg[0] == 's' and isinstance(sg[1], int):
            v = seg_read(sg, 0, sg[1])
            parts.append((v, 8 * sg[1]))
        elif sg[0] == 'f' and isinstance(sg[1], int):
            parts.append((int.from_bytes(bytes([sg[2]]) * sg[1], 'little'), 8 * sg[1]))
        else:
            return Top('symbolic-length value %r' % (sg,))
    return T.concat(parts)


def canon_segs(segs, st=None):
    """canonical rope for use inside a term"""
    out = []
    for sg in segs:
        k, ln = sg[0], sg[1]
        if st is not None:
            ln = st.simp(ln)
        if isinstance(ln, int) and ln == 0:
            continue
        if k == 's' and isinstance(ln, int):
            k, sg = 'v', ('v', ln, seg_read(sg, 0, ln))
        if k == 'u':
            _un[0] += 1
            k, sg = 's', ('s', ln, T.seq('uninitialised#%d' % _un[0]), 0)
        if k == 'f' and isinstance(ln, int):
            k, sg = 'v', ('v', ln, int.from_bytes(bytes([sg[2]]) * ln, 'little'))
        if k == 'v':
            v = sg[2]
            if v is U:
                v = uninit(None, 0, ln)
            if isinstance(v, Ptr):
                v = p2i(v)
            if isinstance(v, Top):
                out.append(('t', ln, v))
                continue
            if out and out[-1][0] == 'b':
                p = out[-1]
                out[-1] = ('b', p[1] + ln, T.concat([(p[2], 8 * p[1]), (v, 8 * ln)]))
            else:
                out.append(('b', ln, v))
        elif k == 's':
            if out and out[-1][0] == 's' and out[-1][2] is sg[2] and oadd(out[-1][3], out[-1][1]) == sg[3]:
                p = out[-1]
                out[-1] = ('s', oadd(p[1], ln), p[2], p[3])
            elif out and out[-1][0] == 'b' and isinstance(sg[3], int) and isinstance(out[-1][2], S) and isinstance(sg[2], T.Atom) and tail_of(out[-1][2], sg[2], sg[3]):
                # known bytes directly before the rest of the same content
                p = out.pop()
                k = tail_of(p[2], sg[2], sg[3])
                if p[1] > k:
                    out.append(('b', p[1] - k, T.extract(p[2], 8 * p[1], 0, 8 * (p[1] - k))))
                out.append(('s', oadd(ln, k), sg[2], sg[3] - k))
            else:
                out.append(('s', ln, sg[2], sg[3]))
        elif k == 'f':
            out.append(('f', ln, sg[2]))
        else:
            out.append(('t', ln, sg[2] if len(sg) > 2 else Top('uninitialised')))
    return tuple(out)


def tail_of(v, q, off):
    """how many of the last bytes of v are bytes of the sequence q up to offset off"""
    k = 0
    for n, m, sl in reversed(v.ps):
        if m or len(sl) != 1 or n % 8 or sl[0] != (q.id, 8 * (off - k) - n):
            break
        k += n // 8
    return k


SPIN = (600, 5000, 50000)


class Recorder:
    """records the memory effect of one symbolic loop iteration"""

    def __init__(self, pre, parent=None):
        self.pre = pre
        self.writes = {}      # (obj) -> {offkey: (off, n, val)}
        self.reads = []
        self.bad = None
        self.parent = parent

    def fork(self):
        r = Recorder(self.pre, self.parent)
        r.writes = {o: dict(w) for o, w in self.writes.items()}
        r.reads = list(self.reads)
        r.bad = self.bad
        return r

    def merge(self, eng, c, o):
        r = Recorder(self.pre, self.parent)
        r.bad = self.bad or o.bad
        r.reads = self.reads + o.reads[0:]
        for ob in set(self.writes) | set(o.writes):
            a, b = self.writes.get(ob, {}), o.writes.get(ob, {})
            d = r.writes[ob] = {}
            for off in set(a) | set(b):
                x, y = a.get(off), b.get(off)
                if x is None or y is None or x[1] != y[1]:
                    r.bad = r.bad or 'conditional store'
                    d[off] = x or y
                elif x[2] is y[2] or x[2] == y[2]:
                    d[off] = x
                else:
                    v = T.ite(c, x[2], y[2], 8 * x[1]) if isinstance(x[2], (int, S)) and isinstance(y[2], (int, S)) else Top('join')
                    d[off] = (off, x[1], v)
        return r

    def load(self, eng, st, o, off, n):
        if o not in self.pre:
            return None
        w = self.writes.get(o)
        if w:
            e = w.get(off)
            if e and e[1] == n:
                return e[2]
        if o.kind != 'const':
            self.reads.append((o, off, n, bool(w)))
        if self.parent is not None:
            return self.parent.load(eng, st, o, off, n)
        return None

    def store(self, eng, st, o, off, n, v):
        if o not in self.pre:
            return False
        self.writes.setdefault(o, {})[off] = (off, n, ('v', n, v))[0:2] + (v,)
        return True

    def copy_out(self, eng, st, o, off, ln):
        if o not in self.pre:
            return None
        w = self.writes.get(o)
        if w:
            e = w.get(off)
            if e and e[1] == ln:
                return [('v', ln, e[2])]
        if o.kind != 'const':
            self.reads.append((o, off, ln, bool(w)))
        if self.parent is not None:
            return self.parent.copy_out(eng, st, o, off, ln)
        return None

    def copy_in(self, eng, st, o, off, segs):
        if o not in self.pre:
            return False
        ln = total_len(segs)
        if not isinstance(ln, int):
            self.bad = 'symbolic-length write in loop body'
            return True
        v = segs_value(segs)
        self.writes.setdefault(o, {})[off] = (off, ln, v)
        return True

    def ok(self):
        if self.bad:
            return False
        for o, off, n, after in self.reads:
            w = self.writes.get(o)
            if not w:
                continue
            # reads of a written object: only the element this iteration (later) writes
            e = w.get(off)
            if e and e[1] == n:
                continue
            return False
        return True

    def final(self, iv, depth):
        key = iv.ps[0]
        outs = []
        for o, ws in self.writes.items():
            items = []
            for off, n, v in ws.values():
                c, d = oform(off)
                s = d.get(key, 0)
                rest = {k: co for k, co in d.items() if k != key}
                if any(uses(k, key) for k in rest):
                    return None
                items.append((c, rest, s, n, v))
            # merge unrolled bodies: offsets c, c+n, ... within one stride
            items.sort(key=lambda t: t[0])
            base = items[0]
            tot = 0
            vals = []
            for c, rest, s, n, v in items:
                if rest != base[1] or s != base[2] or c != base[0] + tot:
                    return None
                tot += n
                vals.append((v, 8 * n))
            if base[2] != tot:
                return None
            if any(not isinstance(v, (int, S)) for v, _ in vals):
                return None
            val = T.concat(vals)
            outs.append((o, T.from_form(base[0], base[1], 64), tot, val))

        def apply(N):
            for o, off, n, val in outs:
                if isinstance(off, int):
                    off = T.tosigned(off, 64)
                ln = T.mul(N, n, 64)
                seg = gen_seg(val, n, ln, key)
                yield o, off, seg
        for o, off, n, val in outs:
            pass
        return apply


def gen_seg(val, n, ln, key):
    if isinstance(val, int):
        b = val.to_bytes(n, 'little')
        if len(set(b)) == 1:
            return ('f', ln, b[0])
    if isinstance(val, S) and len(val.ps) == 1 and not val.ps[0][1] and len(val.ps[0][2]) == 1:
        (aid, lo), = val.ps[0][2]
        a = T.ATOMS[aid]
        if a.kind == 'at' and lo == 0 and a.w == 8 * n:
            Tt, off, k = a.args
            c, d = oform(off)
            if d.get(key) == n:
                d = {k2: co for k2, co in d.items() if k2 != key}
                if not any(uses(k2, key) for k2 in d):
                    o = T.from_form(c, d, 64)
                    if isinstance(o, int):
                        o = T.tosigned(o, 64)
                    return ('s', ln, Tt, o)
    m = T.atom('map', (n, val, key), None)
    return ('s', ln, m, 0)


def uses(piece, key):
    """does piece depend on key's atom (structurally, shallow)"""
    kid = key[2][0][0]
    return mentions(piece, kid)


_ment = {}


def mentions(piece, kid):
    for a, lo in piece[2]:
        if atom_mentions(a, kid):
            return True
    return False


def atom_mentions(aid, kid):
    if aid == kid:
        return True
    if aid < kid:
        return False      # atoms only refer to earlier atoms
    r = _ment.get((aid, kid))
    if r is None:
        r = any(x == kid or (x > kid and atom_mentions(x, kid)) for x in atom_refs(aid))
        _ment[(aid, kid)] = r
    return r


_refs = {}


def atom_refs(aid):
    r = _refs.get(aid)
    if r is None:
        r = set()
        _collect(T.ATOMS[aid].args, r)
        _refs[aid] = r
    return r


def _collect(x, out):
    if isinstance(x, S):
        for p in x.ps:
            for a, lo in p[2]:
                out.add(a)
    elif isinstance(x, T.Atom):
        out.add(x.id)
    elif isinstance(x, (tuple, frozenset, list)):
        # a slices tuple ((id,lo),..) or piece (n,m,sl) or nested
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], int) and isinstance(x[2], tuple) \
                and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], int) for y in x[2]):
            for a, lo in x[2]:
                out.add(a)
            return
        for y in x:
            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], tuple) and \
                    all(isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], int) and isinstance(z[1], int) for z in y[1]):
                for a, lo in y[1]:
                    out.add(a)
            elif isinstance(y, tuple) and y and all(isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], int) and isinstance(z[1], int) for z in y):
                for a, lo in y:
                    out.add(a)
            else:
                _collect(y, out)


def solve_trip(c, iv, depth):
    """c: continue condition in terms of iv -> trip count (S64/int) or None"""
    if not isinstance(c, S):
        return None
    m, sl = T.lit(c)
    if len(sl) != 1:
        return None
    a = T.ATOMS[sl[0][0]]
    key = iv.ps[0]
    if a.kind == 'lt':
        c0, d = a.args[0], dict(a.args[1])
        if m:      # not(form<0): -form-1 < 0
            c0, d = -c0 - 1, {k: -co for k, co in d.items()}
    elif a.kind == 'z' and m:
        c0, d = a.args[0], dict(a.args[1])
        if d.get(key, 0) < 0:
            c0, d = -c0, {k: -co for k, co in d.items()}
    elif a.kind == 'is' and m and a.args[0] == key:
        return a.args[1]
    else:
        return None
    s = d.pop(key, 0)
    if s <= 0 or any(uses(k, key) for k in d):
        return None
    # s*i + c0 + rest < 0  ->  i < -(c0+rest)/s
    nc, nd = -c0, {k: -co for k, co in d.items()}
    if s != 1:
        v = T.from_form(nc + s - 1, nd, 64)
        N = T.udiv(v, s, 64)
    else:
        N = T.from_form(nc, nd, 64)
    lo, hi = T.form_range(nc, nd)
    if lo < 0:
        return None
    return N


def trip_max(N, st):
    if isinstance(N, int):
        return N
    r = None
    try:
        r = T.form_range(*T.to_int_form(N, 64), st.rng)[1]
    except Undecided:
        pass
    return T.mask(64) if r is None else r


T_I1 = ('i', 1)

# ---------------------------------------------------------------- instruction handlers


def _w(ty):
    return ty[1]


def num(v):
    if isinstance(v, Ptr):
        return p2i(v)
    return v


def bad(*vs):
    for v in vs:
        if not isinstance(v, (int, S)):
            if v is U:
                return Top('use of undefined value')
            if isinstance(v, Top):
                return v
            return Top('operand %r' % (v,))
    return None


def h_bin(f):
    def h(eng, fr, ins, st):
        a = eng.val(fr, ins.ops[0], ins.ty)
        b = eng.val(fr, ins.ops[1], ins.ty)
        if isinstance(a, Agg) or isinstance(b, Agg):
            w = ins.ty[2][1]
            fr.regs[ins.res] = Agg([f(x, y, w) if bad(x, y) is None else bad(x, y) for x, y in zip(a, b)])
            return
        if not isinstance(a, (int, S)) or not isinstance(b, (int, S)):
            if isinstance(a, Fn) and b == 1 and ins.op == 'and':
                fr.regs[ins.res] = 0        # pointer to a member function: the virtual flag
                return
            a, b = num(a), num(b)
            t = bad(a, b)
            if t is not None:
                fr.regs[ins.res] = t
                return
        if st.eqs:
            a, b = st.simp(a), st.simp(b)
        w = ins.ty[1]
        if isinstance(a, S) and a.w != w:
            a = fixw(a, w)
        if isinstance(b, S) and b.w != w:
            b = fixw(b, w)
        r = (eng.binop.get(ins.op) or f)(a, b, w)
        if isinstance(r, Top):
            eng.events.append(('trap', r.why, eng.where_ins(fr, ins)))
        fr.regs[ins.res] = r
    return h


def fixw(v, w):
    if v.w > w:
        return T.extract(v, v.w, 0, w)
    return T.zext(v, v.w, w)


def where_ins(self, fr, ins):
    fr.cur = ins
    return self.where()


Engine.where_ins = where_ins


def h_icmp(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0], ins.ty)
    b = eng.val(fr, ins.ops[1], ins.ty)
    pred = ins.x
    if isinstance(a, int) and isinstance(b, int):
        fr.regs[ins.res] = T.icmp(pred, a, b, ins.ty[1] if ins.ty[0] == 'i' else 64)
        return
    if isinstance(a, Agg):
        fr.regs[ins.res] = Agg([T.icmp(pred, x, y, ins.ty[2][1]) for x, y in zip(a, b)])
        return
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        a, b = i2p(a), i2p(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                if pred in ('eq', 'ne'):
                    d = osub(a.off, b.off)
                    if isinstance(d, int):
                        r = 1 if d == 0 else 0
                    else:
                        d = st.simp(d)
                        c, f = oform(d)
                        lo, hi = T.form_range(c, f, st.rng)
                        if lo > 0 or hi < 0 or T.eq(d, 0, 64) == 0:
                            r = 0
                        else:
                            r = T.form_zero(c, f)
                    fr.regs[ins.res] = r if pred == 'eq' else (T.bnot(r, 1) if isinstance(r, S) else 1 - r)
                    return
                x = a.off & mask(64) if isinstance(a.off, int) else a.off
                y = b.off & mask(64) if isinstance(b.off, int) else b.off
                p2 = {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(pred, pred)
                fr.regs[ins.res] = T.icmp(p2, x, y, 64)
                return
            if pred in ('eq', 'ne'):
                fr.regs[ins.res] = 0 if pred == 'eq' else 1
                return
            fr.regs[ins.res] = Top('order of unrelated pointers')
            return
        if isinstance(a, (Ptr, Fn)) and isinstance(b, int) and b == 0 or isinstance(b, (Ptr, Fn)) and isinstance(a, int) and a == 0:
            if pred in ('eq', 'ne'):
                fr.regs[ins.res] = 0 if pred == 'eq' else 1
                return
        if isinstance(a, Fn) and isinstance(b, Fn) and pred in ('eq', 'ne'):
            fr.regs[ins.res] = int((a == b) == (pred == 'eq'))
            return
        a, b = num(a), num(b)
    t = bad(a, b)
    if t is not None:
        fr.regs[ins.res] = t
        return
    w = ins.ty[1] if ins.ty[0] == 'i' else 64
    if isinstance(a, S) and a.w != w:
        a = fixw(a, w)
    if isinstance(b, S) and b.w != w:
        b = fixw(b, w)
    if st.eqs:
        a, b = st.simp(a), st.simp(b)
    fr.regs[ins.res] = T.icmp(pred, a, b, w)


def h_zext(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0], ins.x)
    if isinstance(a, int):
        fr.regs[ins.res] = a
        return
    if isinstance(a, Agg):
        fr.regs[ins.res] = Agg([T.zext(x, ins.x[2][1], ins.ty[2][1]) if isinstance(x, (int, S)) else x for x in a])
        return
    t = bad(a)
    if t is None and a.w != ins.x[1]:
        a = fixw(a, ins.x[1])
    fr.regs[ins.res] = t if t is not None else T.zext(a, ins.x[1], ins.ty[1])


def h_sext(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0], ins.x)
    if isinstance(a, Agg):
        fr.regs[ins.res] = Agg([T.sext(x, ins.x[2][1], ins.ty[2][1]) if isinstance(x, (int, S)) else x for x in a])
        return
    t = bad(a)
    if t is None and isinstance(a, S) and a.w != ins.x[1]:
        a = fixw(a, ins.x[1])
    fr.regs[ins.res] = t if t is not None else T.sext(a, ins.x[1], ins.ty[1])


def h_trunc(eng, fr, ins, st):
    a = num(eng.val(fr, ins.ops[0], ins.x))
    if isinstance(a, Agg):
        fr.regs[ins.res] = Agg([T.trunc(x, ins.x[2][1], ins.ty[2][1]) if isinstance(x, (int, S)) else x for x in a])
        return
    t = bad(a)
    if t is None and isinstance(a, S) and a.w != ins.x[1]:
        a = fixw(a, ins.x[1])
    fr.regs[ins.res] = t if t is not None else T.trunc(a, ins.x[1], ins.ty[1])


def h_ptrtoint(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0])
    v = num(a)
    if isinstance(v, S) and ins.ty[1] < 64:
        v = T.trunc(v, 64, ins.ty[1])
    fr.regs[ins.res] = v


def h_inttoptr(eng, fr, ins, st):
    fr.regs[ins.res] = i2p(eng.val(fr, ins.ops[0], ins.x))


def h_bitcast(eng, fr, ins, st):
    v = eng.val(fr, ins.ops[0], ins.x)
    if isinstance(v, Agg) or ins.ty[0] == 'vec':
        ft, tt = ins.x, ins.ty
        if isinstance(v, Agg) and ft[0] == 'vec':
            if any(bad(x) is not None for x in v):
                fr.regs[ins.res] = Top('bitcast')
                return
            v = T.concat([(x, ft[2][1]) for x in v])
            w = ft[1] * ft[2][1]
        else:
            w = ft[1]
        if tt[0] == 'vec':
            e = tt[2][1]
            v = Agg([T.extract(v, w, i * e, e) for i in range(tt[1])])
    fr.regs[ins.res] = v


def h_load(eng, fr, ins, st):
    p = eng.val(fr, ins.ops[0])
    mod = fr.fn.mod
    fr.cur = ins
    fr.regs[ins.res] = eng.load_ty(st, p, ins.ty, mod)


def load_ty(self, st, p, ty, mod):
    k = ty[0]
    if k == 'i':
        n = (ty[1] + 7) // 8
        v = self.load(st, p, n)
        if isinstance(v, S):
            if st.eqs:
                v = st.simp(v)
            if ty[1] % 8 and not isinstance(v, int):
                v = T.extract(v, 8 * n, 0, ty[1])
        if isinstance(v, int):
            v &= mask(ty[1])
        return v
    if k == 'ptr':
        v = self.load(st, p, 8)
        return i2p(v) if isinstance(v, S) else v
    if k in ('struct', 'named', 'arr', 'vec'):
        t = mod.resolve(ty)
        out = []
        p = i2p(p)
        if not isinstance(p, Ptr):
            return Top('load agg')
        if t[0] == 'struct':
            for i, e in enumerate(t[1]):
                out.append(self.load_ty(st, Ptr(p.obj, oadd(p.off, mod.field_off(t, i))), e, mod))
        else:
            sz = mod.size(t[2])
            for i in range(t[1]):
                out.append(self.load_ty(st, Ptr(p.obj, oadd(p.off, i * sz)), t[2], mod))
        return Agg(out)
    n = mod.size(ty)
    v = self.load(st, p, n)
    if k == 'double' and isinstance(v, int):
        import struct
        return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
    return v


def store_ty(self, st, p, ty, v, mod):
    k = ty[0]
    if k == 'i':
        n = (ty[1] + 7) // 8
        if ty[1] % 8 and isinstance(v, S):
            v = T.zext(v, ty[1], 8 * n)
        self.store(st, p, n, v)
        return
    if k in ('struct', 'named', 'arr', 'vec'):
        t = mod.resolve(ty)
        p = i2p(p)
        if isinstance(v, Top):
            v = Agg([v] * (len(t[1]) if t[0] == 'struct' else t[1]))
        if t[0] == 'struct':
            for i, e in enumerate(t[1]):
                self.store_ty(st, Ptr(p.obj, oadd(p.off, mod.field_off(t, i))), e, v[i], mod)
        else:
            sz = mod.size(t[2])
            for i in range(t[1]):
                self.store_ty(st, Ptr(p.obj, oadd(p.off, i * sz)), t[2], v[i], mod)
        return
    if k == 'double' and isinstance(v, float):
        import struct
        v = int.from_bytes(struct.pack('<d', v), 'little')
    self.store(st, p, mod.size(ty), v)


Engine.load_ty = load_ty
Engine.store_ty = store_ty


def h_store(eng, fr, ins, st):
    v = eng.val(fr, ins.ops[0], ins.ty)
    p = eng.val(fr, ins.ops[1])
    fr.cur = ins
    eng.store_ty(st, p, ins.ty, v, fr.fn.mod)


def h_alloca(eng, fr, ins, st):
    sz = fr.fn.mod.size(ins.ty)
    n = eng.val(fr, ins.ops[0], ins.x)
    n = st.simp(n)
    if isinstance(n, int):
        size = sz * n
    elif isinstance(n, S):
        size = T.mul(T.zext(n, n.w, 64) if n.w < 64 else n, sz, 64)
    else:
        size = n
        raise Undecided('alloca size %r' % (n,))
    fr.cur = ins
    if not isinstance(size, int) or ins.ops[0][0] != 'k':
        eng.events.append(('vla', size, fr.fn.name, eng.site(), id(ins), st.pc))
    if isinstance(size, int):
        fr.stk += size
        tot = 0
        f = fr
        while f is not None:
            tot += f.stk + 16
            f = f.parent
        if tot > eng.peak:
            eng.peak, eng.peak_at = tot, eng.site()
    o = eng.new_obj(st, '%s' % (ins.res,), size, U, 'stack', (fr.fn.name, ins.dbg))
    fr.regs[ins.res] = Ptr(o, 0)


def h_gep(eng, fr, ins, st):
    plan = ins.h
    mod = fr.fn.mod
    if plan is None:
        plan = ins.h = mod.gep_plan(ins.ty, ins.ops[1:], ins.x[1:])
    base = eng.val(fr, ins.ops[0])
    const, dyn = plan
    off = const
    for sc, o, w in dyn:
        v = eng.val(fr, o)
        if isinstance(v, int):
            if v >> (w - 1):
                v -= 1 << w
            off = oadd(off, v * sc)
        else:
            v = num(v)
            t = bad(v)
            if t is not None:
                fr.regs[ins.res] = t
                return
            if v.w != w:
                v = fixw(v, w)
            v = st.simp(v)
            if isinstance(v, int):
                off = oadd(off, T.tosigned(v, w) * sc)
            else:
                if w < 64:
                    v = T.sext(v, w, 64)
                off = oadd(off, T.mul(v, sc & mask(64), 64))
    if isinstance(base, Ptr):
        fr.regs[ins.res] = Ptr(base.obj, oadd(base.off, off)) if off != 0 or not isinstance(off, int) else base
        return
    if isinstance(base, int):
        r = (base + off) & mask(64) if isinstance(off, int) else T.add(base, off, 64)
        fr.regs[ins.res] = r
        return
    if isinstance(base, S):
        r = T.add(base, off & mask(64) if isinstance(off, int) else off, 64)
        fr.regs[ins.res] = i2p(r)
        return
    fr.regs[ins.res] = base if isinstance(base, Top) else Top('gep base %r' % (base,))


def h_select(eng, fr, ins, st):
    c = eng.val(fr, ins.ops[0])
    a = eng.val(fr, ins.ops[1], ins.ty)
    b = eng.val(fr, ins.ops[2], ins.ty)
    if isinstance(c, S):
        c = st.simp(c)
        d = st.decide(c)
        if d is not None:
            c = d
    if isinstance(c, int):
        fr.regs[ins.res] = a if c else b
        return
    if isinstance(c, Agg):
        fr.regs[ins.res] = Top('vector select')
        return
    if not isinstance(c, S):
        fr.regs[ins.res] = Top('select on %r' % (c,))
        return
    if ins.ty[0] == 'i' and isinstance(a, (int, S)) and isinstance(b, (int, S)):
        fr.regs[ins.res] = T.ite(c, a, b, ins.ty[1])
        return
    fr.regs[ins.res] = eng.vite2(c, a, b)


def h_freeze(eng, fr, ins, st):
    fr.regs[ins.res] = eng.val(fr, ins.ops[0], ins.ty)


def h_extractvalue(eng, fr, ins, st):
    v = eng.val(fr, ins.ops[0])
    for i in ins.x[0]:
        if isinstance(v, Agg):
            v = v[i]
        else:
            v = v if isinstance(v, Top) else Top('extractvalue')
    fr.regs[ins.res] = v


def _ins(v, idx, x):
    if not isinstance(v, Agg):
        return Top('insertvalue')
    l = list(v)
    if len(idx) == 1:
        l[idx[0]] = x
    else:
        l[idx[0]] = _ins(l[idx[0]], idx[1:], x)
    return Agg(l)


def h_insertvalue(eng, fr, ins, st):
    v = eng.val(fr, ins.ops[0], ins.x[1][0])
    x = eng.val(fr, ins.ops[1], ins.x[1][1])
    fr.regs[ins.res] = _ins(v, ins.x[0], x)


def h_extractelement(eng, fr, ins, st):
    v = eng.val(fr, ins.ops[0], ins.x[0])
    i = eng.val(fr, ins.ops[1], ins.x[1])
    fr.regs[ins.res] = v[i] if isinstance(v, Agg) and isinstance(i, int) else Top('extractelement')


def h_insertelement(eng, fr, ins, st):
    v = eng.val(fr, ins.ops[0], ins.x[0])
    x = eng.val(fr, ins.ops[1], ins.x[1])
    i = eng.val(fr, ins.ops[2], ins.x[2])
    if v is U:
        v = Agg([U] * ins.x[0][1])
    fr.regs[ins.res] = _ins(v, [i], x) if isinstance(i, int) else Top('insertelement')


def h_shufflevector(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0], ins.x[0])
    b = eng.val(fr, ins.ops[1], ins.x[1])
    m = eng.val(fr, ins.ops[2], ins.x[2])
    n = ins.x[0][1]
    if a is U:
        a = Agg([U] * n)
    if b is U:
        b = Agg([U] * n)
    out = []
    for i in m:
        if i is U:
            out.append(U)
        else:
            out.append(a[i] if i < n else b[i - n])
    fr.regs[ins.res] = Agg(out)


def h_fbin(op):
    def h(eng, fr, ins, st):
        a = eng.val(fr, ins.ops[0], ins.ty)
        b = eng.val(fr, ins.ops[1], ins.ty)
        if isinstance(a, float) and isinstance(b, float):
            try:
                r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b,
                     'fdiv': lambda: a / b if b else float('inf')}[op]()
            except Exception:
                r = Top('fp')
        else:
            r = Top('fp')
        fr.regs[ins.res] = r
    return h


def h_itofp(signed):
    def h(eng, fr, ins, st):
        a = eng.val(fr, ins.ops[0], ins.x)
        if isinstance(a, int):
            fr.regs[ins.res] = float(T.tosigned(a, ins.x[1]) if signed else a)
        else:
            fr.regs[ins.res] = Top('int to fp')
    return h


def h_fptoi(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0], ins.x)
    if isinstance(a, float) and abs(a) < 1e18:
        fr.regs[ins.res] = int(a) & mask(ins.ty[1])
    else:
        fr.regs[ins.res] = Top('fp to int of %r' % (a,))


def h_fpx(eng, fr, ins, st):
    fr.regs[ins.res] = eng.val(fr, ins.ops[0], ins.x)


def h_fcmp(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0], ins.ty)
    b = eng.val(fr, ins.ops[1], ins.ty)
    if isinstance(a, float) and isinstance(b, float):
        p = ins.x[1:]
        fr.regs[ins.res] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}.get(p, False))
    else:
        fr.regs[ins.res] = Top('fcmp')


def h_landingpad(eng, fr, ins, st):
    ex = fr.regs.get('<exc>')
    cleanup, clauses = ins.x
    sel = 0
    if isinstance(ex, Exc):
        for kind, op in clauses:
            if kind != 'catch':
                continue
            v = eng.val(fr, op)
            if isinstance(v, int) and v == 0:
                sel = 1          # catch (...)
                break
            nm = v.obj.name[1:] if isinstance(v, Ptr) else getattr(v, 'name', '?')
            if exc_matches(ex.type, nm):
                sel = typeid(nm)
                break
    fr.regs[ins.res] = Agg([ex, sel])


_tids = {}


def typeid(nm):
    return _tids.setdefault(nm, len(_tids) + 2)


STD_BASES = {
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
}


def exc_matches(t, want):
    return t == want or want in STD_BASES.get(t, [])


def h_fneg(eng, fr, ins, st):
    a = eng.val(fr, ins.ops[0], ins.ty)
    fr.regs[ins.res] = -a if isinstance(a, float) else Top('fp')


def h_fence(eng, fr, ins, st):
    pass


HANDLERS = {
    'add': h_bin(T.add), 'sub': h_bin(T.sub), 'mul': h_bin(T.mul), 'udiv': h_bin(T.udiv), 'sdiv': h_bin(T.sdiv),
    'urem': h_bin(T.urem), 'srem': h_bin(T.srem), 'and': h_bin(T.band), 'or': h_bin(T.bor), 'xor': h_bin(T.bxor),
    'shl': h_bin(T.shl), 'lshr': h_bin(T.lshr), 'ashr': h_bin(T.ashr),
    'fadd': h_fbin('fadd'), 'fsub': h_fbin('fsub'), 'fmul': h_fbin('fmul'), 'fdiv': h_fbin('fdiv'),
    'fneg': h_fneg,
    'icmp': h_icmp, 'fcmp': h_fcmp, 'zext': h_zext, 'sext': h_sext, 'trunc': h_trunc, 'bitcast': h_bitcast,
    'ptrtoint': h_ptrtoint, 'inttoptr': h_inttoptr, 'sitofp': h_itofp(True), 'uitofp': h_itofp(False),
    'fptosi': h_fptoi, 'fptoui': h_fptoi, 'fpext': h_fpx, 'fptrunc': h_fpx,
    'load': h_load, 'store': h_store, 'alloca': h_alloca, 'getelementptr': h_gep, 'select': h_select,
    'freeze': h_freeze, 'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue,
    'extractelement': h_extractelement, 'insertelement': h_insertelement, 'shufflevector': h_shufflevector,
    'landingpad': h_landingpad, 'fence': h_fence,
}

# ---------------------------------------------------------------- models


def m_nop(eng, fr, ins, args, st):
    return None


def m_memcpy(eng, fr, ins, args, st):
    d, s, n = args[0], args[1], args[2]
    n = st.simp(n)
    if isinstance(n, int) and n == 0:
        return d
    if not isinstance(n, (int, S)):
        raise Undecided('memcpy length %r at %s' % (n, eng.where()))
    segs = eng.copy_out(st, s, n)
    eng.copy_in(st, d, segs)
    return d


STDCOPY = {}


def stdcopy(name):
    """libstdc++ copies of trivial elements: a block move, whatever the length"""
    m = re.search(r'std::__copy_move(_backward)?<(?:true|false), true, std::random_access_iterator_tag>::__copy_m(?:ove_b)?(?:<|$)', name)
    if not m:
        return False
    back = m.group(1)

    def model(eng, fr, ins, args, st):
        first, last, res = args
        if first == last and isinstance(first, (int, Ptr)):
            return res
        if not all(isinstance(x, Ptr) for x in args) or first.obj != last.obj:
            raise Undecided('copied range is not within one object at %s' % eng.where())
        n = st.simp(osub(last.off, first.off))
        to = Ptr(res.obj, oadd(res.off, osub(0, n) if back else n))
        m_memcpy(eng, fr, ins, [to if back else res, first, n], st)
        return to
    return model


def m_memset(eng, fr, ins, args, st):
    d, b, n = args[0], args[1], args[2]
    n = st.simp(n)
    if isinstance(n, int) and n == 0:
        return d
    if isinstance(b, int):
        b &= 0xff
        if isinstance(n, int):
            eng.copy_in(st, d, [('v', n, int.from_bytes(bytes([b]) * n, 'little'))])
        else:
            eng.copy_in(st, d, [('f', n, b)])
    else:
        raise Undecided('memset value')
    return d


def m_memcmp(eng, fr, ins, args, st):
    n = st.simp(args[2])
    if not isinstance(n, int):
        return Top('memcmp length')
    a = eng.bytes_of(st, args[0], n) if n else 0
    b = eng.bytes_of(st, args[1], n) if n else 0
    if bad(a, b) is not None:
        return bad(a, b)
    if n == 0:
        return 0
    e = T.eq(a, b, 8 * n)
    if isinstance(e, int):
        if e:
            return 0
        return from_bool_ne(1)
    # result zero iff equal; sign opaque
    ne = T.bnot(e, 1)
    u = T.from_atom(T.atom('memcmp', (a, b, n), 31, 1, mask(31)), 0, 31)
    return T.zext(T.ite(e, 0, u, 31), 31, 32) if False else T.concat([(ne, 1), (0, 31)])


def from_bool_ne(x):
    return 1


def minmax(pred):
    def m(eng, fr, ins, args, st):
        a, b = args
        t = bad(a, b)
        if t is not None:
            return t
        c = T.icmp(pred, a, b, ins.ty[1])
        d = st.decide(c) if not isinstance(c, int) else c
        if d is not None:
            return a if d else b
        return T.ite(c, a, b, ins.ty[1])
    return m


def m_fsh(left):
    def m(eng, fr, ins, args, st):
        a, b, s = args
        w = ins.ty[1]
        t = bad(a, b, s)
        if t is not None or not isinstance(s, int):
            return t or Top('symbolic funnel shift')
        s %= w
        if left:
            if s == 0:
                return a
            return T.concat([(T.extract(b, w, w - s, s), s), (T.extract(a, w, 0, w - s), w - s)])
        if s == 0:
            return b
        return T.concat([(T.extract(b, w, s, w - s), w - s), (T.extract(a, w, 0, s), s)])
    return m


def m_bswap(eng, fr, ins, args, st):
    t = bad(args[0])
    return t if t is not None else T.bswap_bytes(args[0], ins.ty[1] // 8)


def m_overflow(f, ext):
    def m(eng, fr, ins, args, st):
        a, b = args
        t = bad(a, b)
        w = ins.x['tys'][0][1]
        if t is not None:
            return Agg([t, t])
        r = f(a, b, w)
        x = T.zext if ext == 'u' else T.sext
        W = 2 * w
        wide = f(x(a, w, W), x(b, w, W), W)
        o = T.bnot(T.eq(wide, x(r, w, W), W), 1)
        return Agg([r, o])
    return m


def m_umulo(eng, fr, ins, args, st):
    return m_overflow(T.mul, 'u')(eng, fr, ins, args, st)


def m_sat_usub(eng, fr, ins, args, st):
    a, b = args
    w = ins.ty[1]
    c = T.ult(a, b, w)
    d = st.decide(c) if not isinstance(c, int) else c
    if d is not None:
        return 0 if d else T.sub(a, b, w)
    return T.ite(c, 0, T.sub(a, b, w), w)


def m_abs(eng, fr, ins, args, st):
    a = args[0]
    w = ins.ty[1]
    if isinstance(a, int):
        return abs(T.tosigned(a, w)) & mask(w)
    return Top('abs')


def m_fp1(f):
    def m(eng, fr, ins, args, st):
        if isinstance(args[0], float):
            try:
                return float(f(args[0]))
            except Exception:
                return Top('fp')
        return Top('fp')
    return m


def m_expect(eng, fr, ins, args, st):
    return args[0]


def m_fptosat(eng, fr, ins, args, st):
    a = args[0]
    if isinstance(a, float):
        return int(a) & mask(ins.ty[1])
    return Top('fp')


def m_isconst(eng, fr, ins, args, st):
    return 0


def m_typeid_for(eng, fr, ins, args, st):
    v = args[0]
    nm = v.obj.name[1:] if isinstance(v, Ptr) else getattr(v, 'name', '?')
    return typeid(nm)


def m_assume(eng, fr, ins, args, st):
    return None


def m_stacksave(eng, fr, ins, args, st):
    return fr.stk


def m_stackrestore(eng, fr, ins, args, st):
    if isinstance(args[0], int):
        fr.stk = args[0]
    return None


def m_ctpop(eng, fr, ins, args, st):
    if isinstance(args[0], int):
        return bin(args[0]).count('1')
    return Top('ctpop')


def m_ctlz(eng, fr, ins, args, st):
    if isinstance(args[0], int):
        return ins.ty[1] - args[0].bit_length()
    return Top('ctlz')


def m_cttz(eng, fr, ins, args, st):
    if isinstance(args[0], int):
        return (args[0] & -args[0]).bit_length() - 1 if args[0] else ins.ty[1]
    return Top('cttz')


import math

LLVM_PREFIX = {
    'llvm.lifetime': m_nop, 'llvm.dbg': m_nop, 'llvm.stacksave': m_stacksave, 'llvm.stackrestore': m_stackrestore,
    'llvm.memcpy': m_memcpy, 'llvm.memmove': m_memcpy, 'llvm.memset': m_memset, 'llvm.assume': m_assume,
    'llvm.umin': minmax('ult'), 'llvm.umax': minmax('ugt'), 'llvm.smin': minmax('slt'), 'llvm.smax': minmax('sgt'),
    'llvm.fshl': m_fsh(True), 'llvm.fshr': m_fsh(False), 'llvm.bswap': m_bswap,
    'llvm.uadd.with.overflow': m_overflow(T.add, 'u'), 'llvm.usub.with.overflow': m_overflow(T.sub, 's' if False else 'u'),
    'llvm.umul.with.overflow': m_umulo, 'llvm.sadd.with.overflow': m_overflow(T.add, 's'),
    'llvm.ssub.with.overflow': m_overflow(T.sub, 's'), 'llvm.smul.with.overflow': m_overflow(T.mul, 's'),
    'llvm.usub.sat': m_sat_usub, 'llvm.abs': m_abs, 'llvm.expect': m_expect,
    'llvm.floor': m_fp1(math.floor), 'llvm.ceil': m_fp1(math.ceil), 'llvm.log2': m_fp1(math.log2), 'llvm.fabs': m_fp1(abs),
    'llvm.fptosi.sat': m_fptosat, 'llvm.fptoui.sat': m_fptosat,
    'llvm.is.constant': m_isconst, 'llvm.eh.typeid.for': m_typeid_for, 'llvm.experimental.noalias': m_nop,
    'llvm.ctpop': m_ctpop, 'llvm.ctlz': m_ctlz, 'llvm.cttz': m_cttz, 'llvm.prefetch': m_nop, 'llvm.trap': lambda *a: DEAD,
    'llvm.ubsantrap': lambda *a: DEAD, 'llvm.objectsize': lambda *a: mask(64),
}


def m_printf(eng, fr, ins, args, st):
    st.log = st.log + (('output', eng.site()),)
    record_output(eng, ins, args, st)
    return 0


def record_output(eng, ins, args, st, what=None):
    """what leaves the program here: the plain values, and the bytes the pointers lead to"""
    name = what or (eng.prog.base(ins.x['callee'][1]) if ins.x['callee'][0] == 'g' else '?')
    vals = []
    if name in ('fwrite', 'write', 'send') or name.endswith('__ostream_insert') or name.endswith('::write'):
        k = next((i for i, a in enumerate(args) if isinstance(a, Ptr) and (i or name == 'fwrite')), None)
        n = args[1] * args[2] if name == 'fwrite' and isinstance(args[1], int) and isinstance(args[2], int) else args[-1]
        if k is not None:
            vals.append(pointee(eng, st, args[k], n if isinstance(n, int) else None))
    else:
        fmt = None
        if name.endswith('printf') or name == 'syslog':
            for a in args:
                if isinstance(a, Ptr):
                    fmt = eng.cstr(st, a) or fmt
        for a in args:
            if isinstance(a, (int, T.S)):
                vals.append(a)
            elif isinstance(a, Ptr) and (fmt is None or '%s' in fmt):
                vals.append(pointee(eng, st, a, None))
    eng.outputs.append((name, eng.where(), [v for v in vals if v is not None]))


def pointee(eng, st, p, n):
    """the bytes at p (n of them, or to the end of the object, or the text of a std::string)"""
    try:
        m = eng.getmem(st, p.obj)
        if not isinstance(p.obj.size, int) or not isinstance(p.off, int):
            return None
        out = []
        end = min(p.obj.size, p.off + (n if n is not None else 4096))
        i = p.off
        while i < end:
            v = m.read(i, 1, st)
            if isinstance(v, (int, T.S)):
                if n is None and v == 0:
                    break
                out.append((v, 8))
            i += 1
        return T.concat(out) if out else None
    except Undecided:
        return None


def m_ostream(eng, fr, ins, args, st):
    record_output(eng, ins, args[1:] if len(args) > 1 else args, st)
    return args[0] if args else None


def m_dead(eng, fr, ins, args, st):
    eng.events.append(('panic', eng.prog.dem(ins.x['callee'][1]) if ins.x['callee'][0] == 'g' else '?', eng.where(), st.pc))
    return DEAD


def m_log2(eng, fr, ins, args, st):
    if isinstance(args[0], float):
        return math.log2(args[0]) if args[0] > 0 else float('-inf')
    if isinstance(args[0], int):
        w = ins.x['tys'][0][1] if ins.x['tys'][0][0] == 'i' else 64
        v = T.tosigned(args[0], w)
        return math.log2(v) if v > 0 else float('-inf')
    return Top('log2')


BASE_MODELS = {
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'memcmp': m_memcmp, 'bcmp': m_memcmp,
    'printf': m_printf, 'fprintf': m_printf, 'puts': m_printf, 'putchar': m_printf, 'fputs': m_printf, 'fwrite': m_printf,
    'vprintf': m_printf, 'vfprintf': m_printf, 'fputc': m_printf, 'putc': m_printf, 'write': m_printf, 'syslog': m_printf, 'fprintf_unlocked': m_printf,
    'fflush': m_nop, 'perror': m_printf,
    'log2': m_log2, 'floor': m_fp1(math.floor), 'ceil': m_fp1(math.ceil), 'std::log2': m_log2,
    'abort': m_dead, 'exit': m_dead, '__assert_fail': m_dead,
}
