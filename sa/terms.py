"""Canonical value-flow terms: the value domain of the abstract interpreter.

An abstract integer of width w is either a Python int (constant) or an S: a
concatenation, least significant first, of pieces (n, mask, slices):
n bits whose value is mask XOR (xor of the atom slices).  Atoms are opaque,
hash-consed values.  Arithmetic goes through linear forms over pieces.  The
form is canonical for slicing, concatenation, XOR, masking, shifts, ANF products
and linear arithmetic, so equal abstract values are equal objects (up to ==).
"""

ATOMS = []          # id -> Atom
_INTERN = {}


class Atom:
    __slots__ = ('id', 'kind', 'args', 'w', 'lo', 'hi')

    def __repr__(self):
        return show_atom(self)


def atom(kind, args, w=None, lo=None, hi=None):
    k = (kind, args, w)
    a = _INTERN.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.args, a.w = kind, args, w
        a.lo, a.hi = lo, hi
        ATOMS.append(a)
        _INTERN[k] = a
    return a


def mask(n):
    return (1 << n) - 1


class S:
    __slots__ = ('w', 'ps', '_lin', '_h')

    def __init__(self, w, ps):
        self.w = w
        self.ps = ps
        self._lin = None
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, S) and self.w == o.w and self.ps == o.ps)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.w, self.ps))
        return h

    def __repr__(self):
        return show(self)


class Top:
    """Unknown value; reason says where precision was lost."""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'TOP(%s)' % self.why

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Undecided(Exception):
    pass


class Broken(Undecided):
    """the analysis cannot go on because the code does something the rule forbids"""

    def __init__(self, rule, text):
        Undecided.__init__(self, text)
        self.rule = rule


# ---------------------------------------------------------------- pieces
def _canmerge(p, q):
    a, b = p[2], q[2]
    if len(a) != len(b):
        return False
    n = p[0]
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] + n != y[1]:
            return False
    return True


def mk(w, ps):
    """pieces (possibly mergeable) -> int or S"""
    out = []
    for p in ps:
        if p[0] == 0:
            continue
        if out and _canmerge(out[-1], p):
            q = out[-1]
            out[-1] = (q[0] + p[0], q[1] | (p[1] << q[0]), q[2])
        else:
            out.append(p)
    if len(out) == 1 and not out[0][2]:
        return out[0][1]
    return S(w, tuple(out))


def pieces(v, w):
    if isinstance(v, int):
        return ((w, v & mask(w), ()),)
    return v.ps


def from_atom(a, lo, n):
    return S(n, ((n, 0, ((a.id, lo),)),))


def var(name, w, lo=None, hi=None):
    """fresh named input of width w (hi bounds it: high bits become constant 0)"""
    if hi is not None and hi < mask(w):
        m = max(1, hi.bit_length())
        a = atom('in', name, m, lo or 0, hi)
        assert (a.lo, a.hi) == (lo or 0, hi), 'input %s redeclared with another range' % name
        if m == w:
            return from_atom(a, 0, w)
        return mk(w, ((m, 0, ((a.id, 0),)), (w - m, 0, ())))
    a = atom('in', name, w, 0, mask(w))
    return from_atom(a, 0, w)


def _split(p, k):
    n, m, sl = p
    return ((k, m & mask(k), sl),
            (n - k, m >> k, tuple((a, lo + k) for a, lo in sl)))


def align(pa, pb):
    """iterate aligned piece pairs"""
    ia, ib = iter(pa), iter(pb)
    a = next(ia, None)
    b = next(ib, None)
    while a is not None and b is not None:
        na, nb = a[0], b[0]
        if na == nb:
            yield a, b
            a = next(ia, None)
            b = next(ib, None)
        elif na < nb:
            b1, b = _split(b, na)
            yield a, b1
            a = next(ia, None)
        else:
            a1, a = _split(a, nb)
            yield a1, b
            b = next(ib, None)


def extract(v, w, lo, n):
    """bits [lo, lo+n) of v (width w)"""
    if isinstance(v, int):
        return (v >> lo) & mask(n)
    if lo == 0 and n == w:
        return v
    out = []
    pos = 0
    end = lo + n
    for p in v.ps:
        pn = p[0]
        pe = pos + pn
        if pe > lo and pos < end:
            s = max(lo, pos) - pos
            e = min(end, pe) - pos
            if s == 0 and e == pn:
                out.append(p)
            else:
                out.append((e - s, (p[1] >> s) & mask(e - s), tuple((a, l + s) for a, l in p[2])))
        pos = pe
        if pos >= end:
            break
    return mk(n, out)


def concat(parts):
    """[(value,width)] LSB first"""
    ps = []
    w = 0
    for v, n in parts:
        if n:
            ps.extend(pieces(v, n))
            w += n
    if not ps:
        return 0
    return mk(w, ps)


def _xsl(a, b):
    if not a:
        return b
    if not b:
        return a
    s = set(a) ^ set(b)
    return tuple(sorted(s))


def bxor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    out = []
    for p, q in align(pieces(a, w), pieces(b, w)):
        out.append((p[0], p[1] ^ q[1], _xsl(p[2], q[2])))
    return mk(w, out)


def bnot(a, w):
    return bxor(a, mask(w), w)


def _mask_piece(p, m):
    """p & m for constant m: list of pieces"""
    n = p[0]
    if m == mask(n):
        return [p]
    if m == 0:
        return [(n, 0, ())]
    out = []
    pos = 0
    while pos < n:
        bit = (m >> pos) & 1
        e = pos
        while e < n and ((m >> e) & 1) == bit:
            e += 1
        if bit:
            out.append((e - pos, (p[1] >> pos) & mask(e - pos), tuple((a, l + pos) for a, l in p[2])))
        else:
            out.append((e - pos, 0, ()))
        pos = e
    return out


def _andbit(m1, s1, m2, s2):
    """1-bit product in ANF: returns (mask, slices)"""
    if s1 == s2:
        prod = s1
    else:
        key = (s1, s2) if s1 < s2 else (s2, s1)
        prod = ((atom('and', key, 1, 0, 1).id, 0),)
    r = prod
    if m2:
        r = _xsl(r, s1)
    if m1:
        r = _xsl(r, s2)
    return m1 & m2, r


def band(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if w == 1:
        return conj([a, b])
    if a == b:
        return a
    out = []
    for p, q in align(pieces(a, w), pieces(b, w)):
        n = p[0]
        if not p[2]:
            out.extend(_mask_piece(q, p[1]))
        elif not q[2]:
            out.extend(_mask_piece(p, q[1]))
        elif p == q:
            out.append(p)
        else:
            for i in range(n):
                m, sl = _andbit((p[1] >> i) & 1, tuple((x, l + i) for x, l in p[2]),
                                (q[1] >> i) & 1, tuple((x, l + i) for x, l in q[2]))
                out.append((1, m, sl))
    return mk(w, out)


def bor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if w == 1:
        return bnot(conj([bnot(a, 1), bnot(b, 1)]), 1)
    if a == b:
        return a
    # a|b = a ^ b ^ (a&b)
    out = []
    for p, q in align(pieces(a, w), pieces(b, w)):
        n = p[0]
        pz = not p[2] and p[1] == 0
        qz = not q[2] and q[1] == 0
        if pz:
            out.append(q)
        elif qz:
            out.append(p)
        elif p == q:
            out.append(p)
        else:
            x = mk(n, [p]) if p[2] else p[1]
            y = mk(n, [q]) if q[2] else q[1]
            if n == 1:
                t = bxor(bxor(x, y, 1), _band1(x, y), 1)
            else:
                t = bxor(bxor(x, y, n), band(x, y, n), n)
            out.extend(pieces(t, n))
    r = mk(w, out)
    if isinstance(r, S) and r != a and r != b:
        ORS[r] = (a, b)
        k = w
        while k > 8 and isinstance(extract(r, w, k // 2, k - k // 2), int) and extract(r, w, k // 2, k - k // 2) == 0:
            k //= 2
            ORS[extract(r, w, 0, k)] = (extract(a, w, 0, k), extract(b, w, 0, k))
    return r


# how a disjunction was made: it is zero exactly when both operands are
ORS = {}


def _band1(x, y):
    if isinstance(x, int):
        return y if x else 0
    if isinstance(y, int):
        return x if y else 0
    p, q = x.ps[0], y.ps[0]
    m, sl = _andbit(p[1], p[2], q[1], q[2])
    return mk(1, [(1, m, sl)])


# ---------------------------------------------------------------- booleans
def lit(b):
    """1-bit S -> literal (mask, slices)"""
    p = b.ps[0]
    return (p[1], p[2])


def unlit(l):
    return mk(1, [(1, l[0], l[1])])


def _conj_set(b):
    """set of literals whose conjunction is b, or None"""
    m, sl = lit(b)
    if m == 0 and len(sl) == 1:
        a = ATOMS[sl[0][0]]
        if a.kind == 'conj':
            return a.args
    return None


def conj(bs):
    s = set()
    for b in bs:
        if isinstance(b, int):
            if not b & 1:
                return 0
            continue
        cs = _conj_set(b)
        if cs is not None:
            s |= cs
        else:
            s.add(lit(b))
    changed = True
    while changed:
        changed = False
        for l in list(s):
            neg = (l[0] ^ 1, l[1])
            if neg in s:
                return 0
            # not(conj(T)): remove members of T known true; false if T subset of s
            if l[0] == 1 and len(l[1]) == 1:
                a = ATOMS[l[1][0][0]]
                if a.kind == 'conj':
                    T = a.args
                    rest = T - s
                    if not rest:
                        return 0
                    # a member of T known false makes the literal redundant
                    if any((t[0] ^ 1, t[1]) in s for t in T):
                        s.discard(l)
                        changed = True
                        break
                    if len(rest) < len(T):
                        s.discard(l)
                        r = bnot(conj([unlit(t) for t in rest]), 1)
                        if isinstance(r, int):
                            if not r:
                                return 0
                        else:
                            cs = _conj_set(r)
                            if cs is not None:
                                s |= cs
                            else:
                                s.add(lit(r))
                        changed = True
                        break
    if len(s) >= 8:
        _bytegroups(s)
    if not s:
        return 1
    if len(s) == 1:
        return unlit(next(iter(s)))
    return from_atom(atom('conj', frozenset(s), 1, 0, 1), 0, 1)


def _bytegroups(s):
    """replace the eight bit literals of an aligned byte by one byte equality"""
    g = {}
    for l in s:
        sl = l[1]
        if not sl or ATOMS[sl[0][0]].kind in BOOLK:
            continue
        base = sl[0][1] & ~7
        g.setdefault(tuple((a, x - sl[0][1] + base) for a, x in sl), {})[sl[0][1] - base] = l
    for k, d in g.items():
        if len(d) == 8:
            c = 0
            for i, l in d.items():
                s.discard(l)
                c |= (l[0] ^ 1) << i
            s.add(lit(piece_is((8, 0, k), c)))


BOOLK = ('conj', 'is', 'z', 'lt', 'eqm', 'and')


def disj(bs):
    return bnot(conj([bnot(b, 1) for b in bs]), 1)


def _under(v, c, which):
    """v where the literal c is known: an ite on c inside v is the branch taken"""
    if isinstance(v, int):
        return v
    out = None
    for i, p in enumerate(v.ps):
        if len(p[2]) == 1:
            a = ATOMS[p[2][0][0]]
            if a.kind == 'ite' and a.args[0] == c:
                if out is None:
                    out = list(v.ps[:i])
                n, m, sl = a.args[1 if which else 2]
                lo = p[2][0][1]
                out.append((p[0], ((m >> lo) & mask(p[0])) ^ p[1], tuple((x, y + lo) for x, y in sl)))
                continue
        if out is not None:
            out.append(p)
    return v if out is None else mk(v.w, out)


def ite(c, a, b, w):
    """c is a 1-bit value"""
    if isinstance(c, int):
        return a if c else b
    if isinstance(a, Top) or isinstance(b, Top):
        if a is b:
            return a
        return a if isinstance(a, Top) else b
    if a == b:
        return a
    m, sl = lit(c)
    if m:
        c = bnot(c, 1)
        a, b = b, a
    csl = c.ps[0]
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a == b:
        return a
    if w >= 8 and (_is_lin_like(a) or _is_lin_like(b)) and len(csl[2]) == 1:
        at = ATOMS[csl[2][0][0]]
        cf = None
        if at.kind == 'is' and at.args[0][1] == 0:
            cf = (-at.args[1], ((at.args[0], 1),))
        elif at.kind == 'z':
            cf = at.args
        if cf is not None and len(cf[1]) == 1:
            # where the condition says form == 0, a and b that differ by a multiple of the form are equal
            (ca, da), (cb, db) = to_mod_form(a, w, w), to_mod_form(b, w, w)
            k, co = cf[1][0]
            q, r = divmod(db.get(k, 0) - da.get(k, 0), co)
            if r == 0 and (cb - ca - q * cf[0]) % (1 << w) == 0 and \
                    all((db.get(x, 0) - da.get(x, 0)) % (1 << w) == 0 for x in set(da) | set(db) if x != k):
                return b
    if w == 1:
        if isinstance(a, int) and isinstance(b, int):
            return c if a else bnot(c, 1)
        if isinstance(a, int):
            return disj([c, b]) if a else conj([bnot(c, 1), b])
        if isinstance(b, int):
            return disj([bnot(c, 1), a]) if b else conj([c, a])
    out = []
    for p, q in align(pieces(a, w), pieces(b, w)):
        if p == q:
            out.append(p)
        elif not p[2] and not q[2]:
            # bitwise
            n = p[0]
            for i in range(n):
                x, y = (p[1] >> i) & 1, (q[1] >> i) & 1
                if x == y:
                    out.append((1, x, ()))
                elif x:
                    out.append(csl)
                else:
                    out.append((1, csl[1] ^ 1, csl[2]))
        elif p[0] == 1 and not (p[2] and q[2]):
            r = ite(c, mk(1, [p]), mk(1, [q]), 1)
            out.extend(pieces(r, 1))
        else:
            n, lo = p[0], 0
            if p[2] and q[2] and not p[1] and not q[1]:
                # canonical width: the widest common extent of the slices
                sl = p[2] + q[2]
                lo = min(x[1] for x in sl)
                ws = [ATOMS[x[0]].w - x[1] for x in sl if ATOMS[x[0]].w is not None]
                if ws:
                    n = min(ws) + lo
                    p2 = (n, 0, tuple((x, y - lo) for x, y in p[2]))
                    q2 = (n, 0, tuple((x, y - lo) for x, y in q[2]))
                    at = atom('ite', (c, p2, q2), n, 0, mask(n))
                    out.append((p[0], 0, ((at.id, lo),)))
                    continue
            at = atom('ite', (c, p, q), p[0], 0, mask(p[0]))
            out.append((p[0], 0, ((at.id, 0),)))
    return mk(w, out)


# ---------------------------------------------------------------- linear forms
def piece_range(p):
    n, m, sl = p
    if m == 0 and len(sl) == 1:
        a = ATOMS[sl[0][0]]
        if a.lo is not None and a.lo < 0:
            return (0, mask(n))
        if sl[0][1] == 0 and a.hi is not None and a.w == n:
            return (a.lo or 0, a.hi)
        if a.hi is not None and a.lo is not None and a.lo >= 0:
            return (0, min(mask(n), a.hi >> sl[0][1]))
    return (0, mask(n))


def to_int_form(v, w):
    """v as an integer sum: (const, {piece: coef}); exact over the integers
    (value read as unsigned in [0,2^w))."""
    if isinstance(v, int):
        return v, {}
    if v._lin is not None:
        return v._lin
    c = 0
    d = {}
    pos = 0
    for p in v.ps:
        n, m, sl = p
        if not sl:
            c += m << pos
        else:
            done = False
            if len(sl) == 1 and m == 0:
                a = ATOMS[sl[0][0]]
                if a.kind == 'lin' and sl[0][1] == 0 and a.w == n and a.lo >= 0 and a.hi <= mask(n):
                    cc, dd = a.args
                    c += cc << pos
                    for k, co in dd:
                        d[k] = d.get(k, 0) + (co << pos)
                    done = True
            if not done:
                if m == mask(n) and m:
                    c += m << pos
                    k = (n, 0, sl)
                    d[k] = d.get(k, 0) - (1 << pos)
                else:
                    d[p] = d.get(p, 0) + (1 << pos)
        pos += n
    d = {k: co for k, co in d.items() if co}
    v._lin = (c, d)
    return v._lin


def to_mod_form(v, w, W):
    """form valid modulo 2^W"""
    if isinstance(v, int):
        return v, {}
    c, d = to_int_form(v, w)
    # expand wrapping lin atoms that reach the top
    ex = None
    for k, co in d.items():
        n, m, sl = k
        if len(sl) == 1 and m == 0 and sl[0][1] == 0:
            a = ATOMS[sl[0][0]]
            if a.kind == 'lin' and (co << n) % (1 << W) == 0 and not (a.lo >= 0 and a.hi <= mask(n) and a.w == n):
                ex = ex or []
                ex.append((k, co, a))
    if ex:
        d = dict(d)
        for k, co, a in ex:
            del d[k]
            cc, dd = a.args
            c += cc * co
            for k2, c2 in dd:
                d[k2] = d.get(k2, 0) + c2 * co
        d = {k: co for k, co in d.items() if co}
    return c, d


def form_range(c, d, rng=None):
    lo = hi = c
    for k, co in d.items():
        l, h = piece_range(k)
        if rng is not None:
            r = rng.get(k)
            if r is not None:
                l, h = max(l, r[0]), min(h, r[1])
        if co > 0:
            lo += co * l
            hi += co * h
        else:
            lo += co * h
            hi += co * l
    return lo, hi


def _recombine(d):
    """x[lo:lo+n]*c + x[lo+n:..]*c*2^n -> one key (canonical for linear forms)"""
    if len(d) < 2:
        return d
    keys = sorted((k for k in d if len(k[2]) == 1 and k[1] == 0), key=lambda k: (k[2][0][0], k[2][0][1]))
    changed = False
    i = 0
    out = dict(d)
    prev = None
    for k in keys:
        if prev is not None:
            a, lo = prev[2][0]
            b, lo2 = k[2][0]
            if a == b and lo + prev[0] == lo2 and out[k] == out[prev] << prev[0]:
                nk = (prev[0] + k[0], 0, prev[2])
                co = out.pop(prev)
                out.pop(k)
                out[nk] = out.get(nk, 0) + co
                prev = nk
                changed = True
                continue
        prev = k
    if changed:
        out = {k: c for k, c in out.items() if c}
    return out


def from_form(c, d, W):
    M = 1 << W
    H = M >> 1
    c %= M
    nd = {}
    for k, co in d.items():
        co %= M
        if co > H:
            co -= M
        if co:
            nd[k] = co
    if not nd:
        return c
    nd = _recombine(nd)
    # disjoint bit layout?
    ok = True
    items = []
    for k, co in nd.items():
        if co <= 0 or co & (co - 1):
            ok = False
            break
        items.append((co.bit_length() - 1, k))
    if ok:
        items.sort(key=lambda t: t[0])
        ps = []
        pos = 0
        for p0, k in items:
            if p0 < pos:
                ok = False
                break
            if p0 > pos:
                ps.append((p0 - pos, (c >> pos) & mask(p0 - pos), ()))
            n = k[0]
            # effective width from range
            hi = piece_range(k)[1]
            if p0 + n > W:
                n2 = W - p0
                k = (n2, k[1] & mask(n2), k[2])
                n = n2
            if (c >> p0) & mask(n):
                ok = False
                break
            ps.append(k)
            pos = p0 + n
        if ok:
            if pos < W:
                ps.append((W - pos, (c >> pos) & mask(W - pos), ()))
            return mk(W, ps)
    # single inverted piece:  (2^n-1) - x
    if len(nd) == 1:
        (k, co), = nd.items()
        if co < 0 and (-co) & (-co - 1) == 0:
            p0 = (-co).bit_length() - 1
            n = k[0]
            if p0 + n <= W and (c >> p0) & mask(n) == mask(n):
                inv = (n, k[1] ^ mask(n), k[2])
                return mk(W, [(p0, c & mask(p0), ()), inv, (W - p0 - n, c >> (p0 + n), ())])
    # interpret constant signed to find a no-wrap representation
    best = None
    for cc in (c, c - M):
        lo, hi = form_range(cc, nd)
        if lo >= 0 and hi < M:
            best = (cc, lo, hi, 'u')
            break
        if lo >= -H and hi < H and best is None:
            best = (cc, lo, hi, 's')
    if best and best[3] == 'u':
        cc, lo, hi, _ = best
        m = max(1, hi.bit_length())
        a = atom('lin', (cc, tuple(sorted(nd.items()))), m, lo, hi)
        return mk(W, [(m, 0, ((a.id, 0),)), (W - m, 0, ())])
    if best:
        cc, lo, hi, _ = best
        a = atom('lin', (cc, tuple(sorted(nd.items()))), W, lo, hi)
        return from_atom(a, 0, W)
    cc = c - M if c >= H else c
    a = atom('lin', (cc, tuple(sorted(nd.items()))), W, -1, M)   # may wrap: range unknown
    return from_atom(a, 0, W)


def lin_signed_ok(v, w):
    """if v is a full lin atom whose integer form fits the signed range, return form"""
    if isinstance(v, S) and len(v.ps) == 1:
        n, m, sl = v.ps[0]
        if m == 0 and len(sl) == 1 and sl[0][1] == 0:
            a = ATOMS[sl[0][0]]
            H = 1 << (w - 1)
            if a.kind == 'lin' and a.w == w and a.lo >= -H and a.hi < H and not (a.lo == -1 and a.hi == 1 << w):
                return a.args[0], dict(a.args[1])
    return None


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    c1, d1 = to_mod_form(a, w, w)
    c2, d2 = to_mod_form(b, w, w)
    d = dict(d1)
    for k, co in d2.items():
        d[k] = d.get(k, 0) + co
    return from_form(c1 + c2, d, w)


def neg(a, w):
    if isinstance(a, int):
        return (-a) & mask(w)
    c, d = to_mod_form(a, w, w)
    return from_form(-c, {k: -co for k, co in d.items()}, w)


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    c1, d1 = to_mod_form(a, w, w)
    c2, d2 = to_mod_form(b, w, w)
    d = dict(d1)
    for k, co in d2.items():
        d[k] = d.get(k, 0) - co
    return from_form(c1 - c2, d, w)


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        c, d = to_mod_form(a, w, w)
        return from_form(c * b, {k: co * b for k, co in d.items()}, w)
    args = tuple(sorted([a, b], key=lambda x: (x.w, x.ps)))
    return from_atom(atom('mul', args, w, 0, mask(w)), 0, w)


def shl(a, k, w):
    if isinstance(k, S):
        if isinstance(a, int) and a == 0:
            return 0
        return from_atom(atom('shl', (a, k), w, 0, mask(w)), 0, w)
    if k >= w:
        return Top('shift amount >= width')
    if isinstance(a, int):
        return (a << k) & mask(w)
    return concat([(0, k), (extract(a, w, 0, w - k), w - k)])


def lshr(a, k, w):
    if isinstance(k, S):
        if isinstance(a, int) and a == 0:
            return 0
        return from_atom(atom('lshr', (a, k), w, 0, mask(w)), 0, w)
    if k >= w:
        return Top('shift amount >= width')
    if isinstance(a, int):
        return a >> k
    return concat([(extract(a, w, k, w - k), w - k), (0, k)])


def signbit(a, w):
    f = lin_signed_ok(a, w)
    if f is not None:
        lo, hi = form_range(f[0], f[1])
        if lo >= 0:
            return 0
        if hi < 0:
            return 1
    return extract(a, w, w - 1, 1)


def ashr(a, k, w):
    if isinstance(k, S):
        return from_atom(atom('ashr', (a, k), w, 0, mask(w)), 0, w)
    if k >= w:
        return Top('shift amount >= width')
    if isinstance(a, int):
        x = a - (1 << w) if a >> (w - 1) else a
        return (x >> k) & mask(w)
    sb = signbit(a, w)
    return concat([(extract(a, w, k, w - k), w - k)] + [(sb, 1)] * k)


def zext(a, w, W):
    if isinstance(a, int):
        return a
    if w == W:
        return a
    return concat([(a, w), (0, W - w)])


def sext(a, w, W):
    if w == W:
        return a
    if isinstance(a, int):
        if a >> (w - 1):
            return a | (mask(W - w) << w)
        return a
    f = lin_signed_ok(a, w)
    if f is not None:
        return from_form(f[0], f[1], W)
    sb = signbit(a, w)
    if isinstance(sb, int) and sb == 0:
        return zext(a, w, W)
    return concat([(a, w)] + [(sb, 1)] * (W - w))


def trunc(a, w, W):
    if isinstance(a, int):
        return a & mask(W)
    # (form) mod 2^W: re-normalise linear forms
    if len(a.ps) >= 1:
        p = a.ps[0]
        if len(p[2]) == 1 and p[1] == 0 and p[2][0][1] == 0 and ATOMS[p[2][0][0]].kind == 'lin' and p[0] > W:
            at = ATOMS[p[2][0][0]]
            if at.w >= W:
                c, d = at.args
                return from_form(c, dict(d), W)
    return extract(a, w, 0, W)


def udiv(a, b, w):
    if isinstance(b, int):
        if b == 0:
            return Top('division by zero')
        if isinstance(a, int):
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        c, d = to_int_form(a, w)
        if all(co % b == 0 for co in d.values()) and form_range(c, d)[0] >= 0:
            # floor((sum + c)/b) = sum/b + floor(c/b)
            return from_form(c // b, {k: co // b for k, co in d.items()}, w)
    elif isinstance(a, int) and a == 0:
        return 0
    hi = mask(w)
    if isinstance(b, int) and isinstance(a, S):
        c, d = to_int_form(a, w)
        hi = max(0, form_range(c, d)[1]) // b
    m = max(1, hi.bit_length())
    at = atom('udiv', (a, b), m, 0, hi)
    return zext(from_atom(at, 0, m), m, w)


def urem(a, b, w):
    if isinstance(b, int):
        if b == 0:
            return Top('division by zero')
        if isinstance(a, int):
            return a % b
        if b & (b - 1) == 0:
            return band(a, b - 1, w) if b > 1 else 0
        q = udiv(a, b, w)
        c, d = to_int_form(a, w)
        if all(co % b == 0 for co in d.values()) and c >= 0:
            return c % b
        at = atom('urem', (a, b), max(1, (b - 1).bit_length()), 0, b - 1)
        return zext(from_atom(at, 0, at.w), at.w, w)
    return from_atom(atom('urem', (a, b), w, 0, mask(w)), 0, w)


def tosigned(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            return Top('division by zero')
        x, y = tosigned(a, w), tosigned(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if isinstance(b, int) and b == 0:
        return Top('division by zero')
    if isinstance(signbit(a, w), int) and signbit(a, w) == 0 and isinstance(b, int) and not b >> (w - 1):
        return udiv(a, b, w)
    return from_atom(atom('sdiv', (a, b), w, 0, mask(w)), 0, w)


def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            return Top('division by zero')
        x, y = tosigned(a, w), tosigned(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if isinstance(b, int) and b == 0:
        return Top('division by zero')
    if isinstance(signbit(a, w), int) and signbit(a, w) == 0 and isinstance(b, int) and not b >> (w - 1):
        return urem(a, b, w)
    return from_atom(atom('srem', (a, b), w, 0, mask(w)), 0, w)


# ---------------------------------------------------------------- comparisons
def _gcd_norm(c, d):
    from math import gcd
    g = 0
    for co in d.values():
        g = gcd(g, abs(co))
    return g


def _is_lin_like(v):
    if isinstance(v, int):
        return False
    for n, m, sl in v.ps:
        for a, lo in sl:
            if ATOMS[a].kind == 'lin':
                return True
    return False


def piece_is(p, c):
    """boolean: piece p (mask 0 normalised) == c"""
    n, m, sl = p
    c ^= m
    if not sl:
        return 1 if c == 0 else 0
    if n == 1:
        return mk(1, [(1, (c ^ 1) & 1, sl)])
    lo, hi = piece_range((n, 0, sl))
    if c < lo or c > hi:
        return 0
    return from_atom(atom('is', ((n, 0, sl), c), 1, 0, 1), 0, 1)


def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a == b else 0
    if a == b:
        return 1
    if _is_lin_like(a) or _is_lin_like(b):
        sa, sb = lin_signed_ok(a, w), lin_signed_ok(b, w)
        c1, d1 = to_mod_form(a, w, w)
        c2, d2 = to_mod_form(b, w, w)
        # exact over the integers when neither side can wrap
        d = dict(d1)
        for k, co in d2.items():
            d[k] = d.get(k, 0) - co
        d = {k: co for k, co in d.items() if co}
        c = c1 - c2
        M = 1 << w
        if not d:
            return 1 if c % M == 0 else 0
        # choose c mod M so that the form stays within (-M, M)
        c %= M
        cands = []
        for cc in (c - M, c, c + M, c - 2 * M):
            lo, hi = form_range(cc, d)
            if lo <= 0 <= hi:
                cands.append(cc)
        if not cands:
            lo, hi = form_range(c, d)
            if hi - lo < M:
                return 0
        if len(cands) == 1:
            lo, hi = form_range(cands[0], d)
            if lo > -M and hi < M:
                return form_zero(cands[0], d)
        return from_atom(atom('eqm', (c, tuple(sorted(d.items())), w), 1, 0, 1), 0, 1)
    x = bxor(a, b, w)
    if x in ORS:
        todo, leaves, seen = [x], {}, set()
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y in ORS:
                todo.extend(ORS[y])
            else:
                leaves[y] = 1
        return conj([eq(y, 0, w) for y in leaves])
    out = []
    for p in pieces(x, w):
        n, m, sl = p
        if len(sl) <= 1 or n <= 8:
            out.append(piece_is(p, 0))
        else:
            while p is not None:
                k = 8 - (p[2][0][1] % 8)
                if p[0] > k:
                    q, p = _split(p, k)
                else:
                    q, p = p, None
                out.append(piece_is(q, 0))
    return conj(out)


def form_zero(c, d):
    """boolean: integer form == 0"""
    d = _recombine({k: co for k, co in d.items() if co})
    if not d:
        return 1 if c == 0 else 0
    g = _gcd_norm(c, d)
    if c % g:
        return 0
    c //= g
    d = {k: co // g for k, co in d.items()}
    lo, hi = form_range(c, d)
    if lo > 0 or hi < 0:
        return 0
    first = min(d)
    if d[first] < 0:
        c, d = -c, {k: -co for k, co in d.items()}
    if len(d) == 1:
        (k, co), = d.items()
        if co == 1:
            if c > 0:
                return 0
            return piece_is(k, -c)
    if len(d) == 2 and c == 0:
        (k1, c1), (k2, c2) = sorted(d.items())
        if c1 == 1 and c2 == -1 and k1[0] == k2[0] and len(k1[2]) == 1 and len(k2[2]) == 1:
            return eq(mk(k1[0], [k1]), mk(k2[0], [k2]), k1[0]) if not (_is_lin_like(mk(k1[0], [k1])) or _is_lin_like(mk(k2[0], [k2]))) else \
                from_atom(atom('z', (c, tuple(sorted(d.items()))), 1, 0, 1), 0, 1)
    return from_atom(atom('z', (c, tuple(sorted(d.items()))), 1, 0, 1), 0, 1)


def form_neg(c, d):
    """boolean: integer form < 0"""
    d = _recombine({k: co for k, co in d.items() if co})
    if not d:
        return 1 if c < 0 else 0
    lo, hi = form_range(c, d)
    if hi < 0:
        return 1
    if lo >= 0:
        return 0
    g = _gcd_norm(c, d)
    if g > 1:
        # sum*g + c < 0  <=>  sum < -c/g  <=> sum + ceil... : sum <= floor((-c-1)/g)
        q = (-c - 1) // g
        d = {k: co // g for k, co in d.items()}
        c = -(q + 1)          # sum <= q  <=> sum - q - 1 < 0
        lo, hi = form_range(c, d)
        if hi < 0:
            return 1
        if lo >= 0:
            return 0
    if lo == -1:
        return form_zero(c + 1, d)
    if hi == 0:
        return bnot(form_zero(c, d), 1)
    first = min(d)
    if d[first] < 0:
        # not( -form - 1 < 0 )
        c2, d2 = -c - 1, {k: -co for k, co in d.items()}
        return bnot(from_atom(atom('lt', (c2, tuple(sorted(d2.items()))), 1, 0, 1), 0, 1), 1)
    return from_atom(atom('lt', (c, tuple(sorted(d.items()))), 1, 0, 1), 0, 1)


def int_form_signed(v, w):
    if isinstance(v, int):
        return tosigned(v, w), {}
    f = lin_signed_ok(v, w)
    if f is not None:
        return f
    c, d = to_int_form(v, w)
    sb = signbit(v, w)
    if isinstance(sb, int):
        return (c - ((1 << w) if sb else 0)), d
    d = dict(d)
    k = sb.ps[0]
    if k[1]:
        c -= (1 << w)
        kk = (1, 0, k[2])
        d[kk] = d.get(kk, 0) + (1 << w)
    else:
        d[k] = d.get(k, 0) - (1 << w)
    return c, d


def _diff(fa, fb):
    c = fa[0] - fb[0]
    d = dict(fa[1])
    for k, co in fb[1].items():
        d[k] = d.get(k, 0) - co
    return c, {k: co for k, co in d.items() if co}


def ult(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a < b else 0
    return form_neg(*_diff(to_int_form(a, w), to_int_form(b, w)))


def slt(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return 1 if tosigned(a, w) < tosigned(b, w) else 0
    return form_neg(*_diff(int_form_signed(a, w), int_form_signed(b, w)))


def icmp(pred, a, b, w):
    if pred == 'eq':
        return eq(a, b, w)
    if pred == 'ne':
        return bnot(eq(a, b, w), 1)
    if pred == 'ult':
        return ult(a, b, w)
    if pred == 'ugt':
        return ult(b, a, w)
    if pred == 'uge':
        return bnot(ult(a, b, w), 1)
    if pred == 'ule':
        return bnot(ult(b, a, w), 1)
    if pred == 'slt':
        return slt(a, b, w)
    if pred == 'sgt':
        return slt(b, a, w)
    if pred == 'sge':
        return bnot(slt(a, b, w), 1)
    if pred == 'sle':
        return bnot(slt(b, a, w), 1)
    raise Undecided('icmp ' + pred)


# ---------------------------------------------------------------- byte sequences
def seq(name, w=None):
    """a named byte sequence (as one wide atom, little endian)"""
    return atom('in', name, w, None, None)


def seqbytes(a, off, n):
    return from_atom(a, 8 * off, 8 * n)


def bswap_bytes(v, nbytes):
    return concat([(extract(v, nbytes * 8, 8 * (nbytes - 1 - i), 8), 8) for i in range(nbytes)])


# ---------------------------------------------------------------- printing
_depth = 0


def show_atom(a):
    global _depth
    if _depth > 6:
        return '…'
    _depth += 1
    try:
        if a.kind == 'in':
            return str(a.args)
        if a.kind == 'lin':
            c, d = a.args
            s = ' + '.join('%d*%s' % (co, show_piece(k)) if co != 1 else show_piece(k) for k, co in d)
            return '(%s + %d)' % (s, c) if c else '(%s)' % s
        if a.kind == 'conj':
            return '(' + ' && '.join(sorted(('!' if m else '') + '^'.join(show_sl(s, 1) for s in sl) for m, sl in a.args)) + ')'
        if a.kind == 'is':
            return '(%s == %d)' % (show_piece(a.args[0]), a.args[1])
        if a.kind == 'ite':
            return 'ite(%s ? %s : %s)' % (show(a.args[0]), show_piece(a.args[1]), show_piece(a.args[2]))
        if a.kind in ('lt', 'z'):
            c, d = a.args[0], a.args[1]
            s = ' + '.join('%d*%s' % (co, show_piece(k)) if co != 1 else show_piece(k) for k, co in d)
            return '(%s + %d %s 0)' % (s, c, '<' if a.kind == 'lt' else '==')
        if a.kind == 'hash':
            return '%s[%s](%s)' % (a.args[0], a.args[1], ' || '.join(show_seg(x) for x in a.args[2:]))
        return '%s(%s)' % (a.kind, ', '.join(show(x) if isinstance(x, (S, int)) else str(x) for x in
                                            (a.args if isinstance(a.args, tuple) else (a.args,))))
    finally:
        _depth -= 1


def show_seg(x):
    if isinstance(x, tuple) and x and x[0] == 'b':
        return show_bytes(x[2], x[1])
    return str(x)


def show_bytes(v, n):
    if isinstance(v, int):
        b = v.to_bytes(n, 'little')
        return '0x' + b.hex() if n <= 8 else '0x%s..(%d bytes)' % (b[:2].hex() + '..' + b[-2:].hex(), n)
    if isinstance(v, Top):
        return repr(v)
    return show(v)


def show_sl(s, n):
    a, lo = s
    A = ATOMS[a]
    if lo == 0 and A.w == n:
        return show_atom(A)
    if lo % 8 == 0 and n % 8 == 0:
        return '%s.bytes[%d:%d]' % (show_atom(A), lo // 8, (lo + n) // 8)
    return '%s.bits[%d:%d]' % (show_atom(A), lo, lo + n)


def show_piece(p):
    n, m, sl = p
    if not sl:
        return '0x%x:%d' % (m, n)
    s = '^'.join(show_sl(x, n) for x in sl)
    if m == mask(n):
        return '~' + s
    if m:
        return '%s^0x%x' % (s, m)
    return s


def show(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, S):
        if len(v.ps) == 1:
            return show_piece(v.ps[0])
        if len(v.ps) > 12:
            return '{' + ' | '.join(show_piece(p) for p in v.ps[:10]) + ' | ...}'
        return '{' + ' | '.join(show_piece(p) for p in v.ps) + '}'
    return repr(v)


def huge(name='HUGE'):
    """message lengths just above 2^31 and 2^32, as narrow ranges: lengths that a 32-bit quantity cannot hold"""
    return [concat([(var('%s%d' % (name, b), 8), 8), (1, b - 8), (1, 1), (0, 63 - b)]) for b in (31, 32)]
