"""Driving the text encodings: models of character classes, number formatting, maps keyed by words, files and the word table."""
from . import terms as T, program as PR, rand as R, spec as SP
from .interp import Engine, State, Ptr, DEAD, Fn
from .terms import Undecided, S
from .models import PRIMS


def tabulate(f, v, w, wr):
    """f applied to the w-bit term v, by cases over the value of v"""
    if isinstance(v, int):
        return f(v)
    if w > 8:
        hi = T.extract(v, w, 8, w - 8)
        if hi == 0:
            lo = T.extract(v, w, 0, 8)
            return tabulate(lambda x: f(x), lo, 8, wr)
        # a sign-extended character
        lo = T.extract(v, w, 0, 8)
        if v == T.sext(lo, 8, w):
            return tabulate(lambda x: f(x if x < 128 else x | (T.mask(w) & ~255)), lo, 8, wr)
        raise Undecided('character function of a wide value')
    vals = possible(v, w)
    out = {x: f(x) for x in vals}
    res = sorted(set(out.values()))
    if len(res) == 1:
        return res[0]
    # differences x -> f(x) - x constant on runs: nested choices
    r = None
    runs = []
    for x in sorted(vals):
        d = (out[x] - x) & T.mask(wr)
        for key in (('c', out[x]), ('d', d)):
            if runs and key in runs[-1][2] and runs[-1][1] == x - 1:
                break
        if runs and runs[-1][2] & {('c', out[x]), ('d', d)}:
            runs[-1][1] = x
            runs[-1][2] &= {('c', out[x]), ('d', d)}
        else:
            runs.append([x, x, {('c', out[x]), ('d', d)}])

    def run_val(ks):
        c = [k for k in ks if k[0] == 'c']
        return c[0][1] if c else T.add(T.zext(v, w, wr), [k for k in ks if k[0] == 'd'][0][1], wr)
    r = run_val(runs[-1][2])
    for lo, hi, ks in reversed(runs[:-1]):
        r = T.ite(T.ult(v, hi + 1, w), run_val(ks), r, wr)
    return r


_poss = {}


def possible(v, w):
    """the values a narrow term can take (all, unless it depends on few input bits)"""
    r = _poss.get(v)
    if r is not None:
        return r
    s = R.support([v], 12)
    r = range(1 << w)
    if s is not None:
        keys = sorted(s)
        got = set()
        for x in range(1 << len(keys)):
            bits = {}
            for i, (nm, b) in enumerate(keys):
                if x >> i & 1:
                    bits[nm] = bits.get(nm, 0) | 1 << b
            try:
                got.add(R.Exact(bits).val(v))
            except R.CantEval:
                got = None
                break
        if got:
            r = sorted(got)
    _poss[v] = r
    return r


def isd(x):
    return 48 <= x <= 57


def isx(x):
    return isd(x) or 65 <= x <= 70 or 97 <= x <= 102


def isal(x):
    return 65 <= x <= 90 or 97 <= x <= 122


CTYPE = {
    'tolower': lambda x: x + 32 if 65 <= x <= 90 else x,
    'toupper': lambda x: x - 32 if 97 <= x <= 122 else x,
    'isdigit': lambda x: int(isd(x)), 'isxdigit': lambda x: int(isx(x)), 'isalpha': lambda x: int(isal(x)),
    'isalnum': lambda x: int(isal(x) or isd(x)), 'isspace': lambda x: int(x == 32 or 9 <= x <= 13),
    'isupper': lambda x: int(65 <= x <= 90), 'islower': lambda x: int(97 <= x <= 122),
}


def m_ctype(f):
    def m(eng, fr, ins, a, st):
        return tabulate(f, st.simp(a[0]), 32, 32)
    return m


def hexdigit(nib, up=False):
    """ASCII digit of a 4-bit term, 8 bits"""
    if isinstance(nib, int):
        return ord(('%X' if up else '%x') % nib)
    n = T.zext(nib, 4, 8)
    return T.ite(T.ult(nib, 10, 4), T.add(n, 48, 8), T.add(n, 55 if up else 87, 8), 8)


def m_fmt(eng, fr, ins, a, st):
    out, v, neg, base, up, width, fill = [st.simp(x) for x in a]
    if isinstance(base, int):
        base = T.tosigned(base, 32)
    if not all(isinstance(x, int) for x in (neg, base, up, width)):
        raise Undecided('number format chosen by data')
    if isinstance(v, int):
        if base not in (10, 16) or not isinstance(fill, int):
            raise Undecided('number base')
        s = ('-' if neg else '') + (('%X' if up else '%x') % v if base == 16 else '%d' % v)
        s = s.rjust(width, chr(fill))
        b = s.encode('latin1')
        eng.copy_in(st, out, [('v', len(b), int.from_bytes(b, 'little'))] if b else [])
        return len(b)
    if base != 16:
        raise Undecided('symbolic number in base %r' % base)
    nd = 1
    while nd < 16 and T.extract(v, 64, 4 * nd, 64 - 4 * nd) != 0:
        nd += 1
    if width < nd:
        raise Undecided('number of digits depends on the value')
    ps = []
    for i in range(width):
        k = width - 1 - i
        if k >= nd:
            ps.append((fill, 8))
            continue
        d = hexdigit(T.extract(v, 64, 4 * k, 4), up)
        if k and fill != 48:
            d = T.ite(T.ult(v, 1 << 4 * k, 64), fill, d, 8)
        ps.append((d, 8))
    eng.copy_in(st, out, [('v', width, T.concat(ps))])
    return width


# ------------------------------------------------------------------ maps keyed by words
def str_at(eng, st, o):
    """content of the std::string at pointer o, if constant"""
    p = eng.load_ty(st, o, ('ptr',), None) if False else eng.load(st, o, 8)
    n = eng.load(st, Ptr(o.obj, o.off + 8), 8)
    if not isinstance(n, int):
        return None
    if n == 0:
        return b''
    v = eng.bytes_of(st, p, n)
    return v.to_bytes(n, 'little') if isinstance(v, int) else None


class Words:
    """placeholder words: text 'W<k>' stands for the word of an abstract index"""

    def __init__(self, length=9):
        self.idx = {}           # placeholder -> 12-bit term
        self.byterm = {}
        self.objs = {}
        self.length = length
        self.cache = {}
        self.nmap = 0
        self.other = []         # symbolic accesses that are not element accesses

    def word(self, k):
        return (b'\x01W%d' % k).ljust(self.length, b'\x02')

    def new(self, term):
        w = self.byterm.get(term)
        if w is None:
            w = self.word(len(self.idx))
            self.idx[w] = term
            self.byterm[term] = w
        return w

    def symload(self, obname):
        def f(eng, st, obj, off, n):
            if obname not in obj.name:
                return None
            o = T.extract(off, off.w, 0, 5)
            if not isinstance(o, int):
                self.other.append(off)
                return None
            ix = T.lshr(off, 5, 64)
            if not T.extract(ix, 64, 12, 52) == 0:
                d = st.decide(T.ult(ix, 4096, 64))
                if d is not True and d != 1:
                    raise Undecided('word index may lie outside the list')
            w = self.new(T.extract(ix, 64, 0, 12))
            q = self.objs.get(w)
            if q is None:
                q = self.objs[w] = (eng.new_obj(st, 'word', 32, kind='heap'), eng.new_obj(st, 'wordtext', len(w) + 1, kind='heap'))
            if q[0] not in st.mem:
                from .interp import CMem
                for x in q:
                    st.mem[x] = CMem(x.size)
                    st.owned.add(x.id)
            s, t = q
            eng.copy_in(st, Ptr(t), [('v', len(w) + 1, int.from_bytes(w + b'\0', 'little'))])
            eng.store(st, Ptr(s), 8, Ptr(t))
            eng.store(st, Ptr(s, 8), 8, len(w))
            return eng.load(st, Ptr(s, o), n)
        return f

    def lookup(self, eng, st, data, n, k):
        """position of key k among the n nodes, else n"""
        if n == 0:
            return 0
        seen, c = self.cache.setdefault(data.obj.name, ([], {}))
        for i in range(len(seen), n):
            p = eng.load(st, Ptr(data.obj, data.off + 8 * i), 8)
            t = str_at(eng, st, p)
            if t is None:
                raise Undecided('map key is not constant')
            seen.append(t)
            c.setdefault(t, i)
        i = c.get(k, n)
        return i if i < n else n

    def m_find(self, eng, fr, ins, a, st):
        nodes, n, key, ln, soff, sp = [st.simp(x) for x in a]
        k = self.key(eng, st, n, key, ln)
        if k in self.idx and n:
            o = eng.new_obj(st, 'node', 64, kind='heap')
            eng.store(st, Ptr(o, soff), 4, T.zext(self.idx[k], 12, 32))
            eng.store(st, i2(sp), 8, Ptr(o))
            return 0
        return self.lookup(eng, st, nodes, n, k)

    def key(self, eng, st, n, key, ln):
        if not isinstance(n, int) or not isinstance(ln, int):
            raise Undecided('map of unknown size')
        k = eng.bytes_of(st, key, ln) if ln else 0
        if not isinstance(k, int):
            raise Undecided('lookup of symbolic text')
        return k.to_bytes(ln, 'little')

    def m_slot(self, eng, fr, ins, a, st):
        dp, np_, cp, key, ln, size, soff = [st.simp(x) for x in a]
        n, cap = eng.load(st, np_, 8), eng.load(st, cp, 8)
        k = self.key(eng, st, n, key, ln)
        data = eng.load(st, dp, 8)
        i = self.lookup(eng, st, data, n, k)
        if i < n:
            return eng.load(st, Ptr(data.obj, data.off + 8 * i), 8)
        if n >= cap:
            cap2 = max(8192, 2 * cap)
            self.nmap += 1
            q = Ptr(eng.new_obj(st, 'map#%d' % self.nmap, 8 * cap2, kind='heap'))
            if n:
                eng.copy_in(st, q, eng.copy_out(st, data, 8 * n))
            eng.store(st, dp, 8, q)
            eng.store(st, cp, 8, cap2)
            data = q
        o = eng.new_obj(st, 'node', size, 0, kind='heap')
        put_str(eng, st, Ptr(o), k)
        eng.store(st, Ptr(data.obj, data.off + 8 * n), 8, Ptr(o))
        eng.store(st, np_, 8, n + 1)
        return Ptr(o)


def i2(p):
    from .interp import i2p
    return i2p(p)


def program():
    return PR.load(['text'], need=False)


_init = {}


def run_ctors(eng, st):
    """run the global constructors of the loaded units"""
    for m in eng.prog.mods:
        t = m.globals.get('llvm.global_ctors')
        if t is None:
            continue
        g = eng.glob(m, 'llvm.global_ctors')
        mm = eng.getmem(st, g.obj)
        n = g.obj.size // 24
        fs = sorted((mm.read(24 * i, 4), i) for i in range(n))
        for _, i in fs:
            f = mm.read(24 * i + 8, 8)
            if isinstance(f, Fn) and f.fn is not None:
                r = eng.call(f.fn, [], st)
                if r is None:
                    raise Undecided('global constructor does not return')
                st = r[1]
    return st


def put_str(eng, st, o, b):
    """construct a std::string with constant content at o"""
    if len(b) > 15:
        q = Ptr(eng.new_obj(st, 'str', len(b) + 1, kind='heap'))
        eng.store(st, Ptr(o.obj, o.off + 16), 8, len(b))
    else:
        q = Ptr(o.obj, o.off + 16)
    eng.store(st, o, 8, q)
    eng.store(st, Ptr(o.obj, o.off + 8), 8, len(b))
    eng.copy_in(st, q, [('v', len(b) + 1, int.from_bytes(b + b'\0', 'little'))])


def m_string_cstr(eng, fr, ins, a, st):
    """std::string(const char *, alloc) for constant text"""
    s = eng.cstr(st, a[1])
    if s is None:
        return NotImplemented
    put_str(eng, st, i2(a[0]), s.encode('latin1'))
    return None


STRING = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
MODELS = {k: m_ctype(f) for k, f in CTYPE.items()}


def m_strlen(eng, fr, ins, a, st):
    s = eng.cstr(st, a[0])
    if s is None:
        raise Undecided('length of symbolic text')
    return len(s)


def m_memchr(eng, fr, ins, a, st):
    n = st.simp(a[2])
    if not isinstance(n, int) or not isinstance(a[1], int):
        raise Undecided('memchr')
    p = i2(a[0])
    for i in range(n):
        v = eng.load(st, Ptr(p.obj, p.off + i), 1)
        if not isinstance(v, int):
            raise Undecided('memchr of symbolic text')
        if v == a[1] & 255:
            return Ptr(p.obj, p.off + i)
    return 0


MODELS.update({'vsa_fmt': m_fmt, 'strlen': m_strlen, 'memchr': m_memchr})


def m_disjunct(eng, fr, ins, a, st):
    s, q = i2(a[0]), i2(a[1])
    d = eng.load(st, s, 8)
    if isinstance(d, Ptr) and isinstance(q, Ptr) and d.obj is not q.obj:
        return 1
    n = eng.load(st, Ptr(s.obj, s.off + 8), 8)
    if isinstance(d, Ptr) and isinstance(q, Ptr) and isinstance(n, int) and isinstance(d.off, int) and isinstance(q.off, int):
        return int(not d.off <= q.off <= d.off + n)
    raise Undecided('string aliasing')


def string_models(prog):
    m = dict(MODELS)
    for f in prog.bybase:
        if f.startswith(STRING) and f.endswith('basic_string<std::allocator<char>>') or f == STRING + 'basic_string':
            m[f] = _maybe_cstr(prog)
        elif f.startswith(('std::endl<', 'std::flush<', 'std::ends<')):
            m[f] = lambda eng, fr, ins, a, st: a[0]
    m[STRING + '_M_disjunct'] = m_disjunct
    return m


class Api:
    """one abstract run over the text functions; the word table is initialised by interpreting its constructor once"""
    base = {}

    def __init__(self, prog=None, words=None, models=None, table=True, wname='wordlist'):
        self.prog = prog or program()
        self.words = words or Words()
        m = dict(PRIMS)
        m.update(string_models(self.prog))
        m['vsa_map_find'] = self.words.m_find
        m['vsa_map_slot'] = self.words.m_slot
        m.update(models or {})
        self.eng = Engine(self.prog, m, unroll=200000)
        self.st = State()
        if table:
            b = Api.base.get(id(self.prog))
            if b is None:
                self.st = run_ctors(self.eng, self.st)
                Api.base[id(self.prog)] = (self.st.fork(), self.eng.globals)
            else:
                self.st = b[0].fork()
                self.eng.globals = b[1]
            self.eng.symload = self.words.symload(wname)
        self.n = 0

    inp_obj = None

    def inp(self, name, n, value=None):
        if value is None:
            o = self.eng.input_obj(self.st, name, n)
        else:
            o = self.eng.new_obj(self.st, name, n)
            if n:
                self.st.mem[o].write(0, n, value)
        return Ptr(o)

    def text(self, b):
        return self.inp('text', len(b), int.from_bytes(b, 'little'))

    def out(self, n):
        self.n += 1
        return Ptr(self.eng.new_obj(self.st, 'out%d' % self.n, n))

    def call(self, name, *args):
        f = self.prog.find(name)
        if f is None:
            raise Undecided('driver %s not available: %s' % (name, '; '.join(x[1][-300:] for x in self.prog.failed) or 'not found'))
        self.eng.exc = []
        r = self.eng.call(f, list(args), self.st)
        ex = list(self.eng.exc)
        if r is None:
            return None, ex
        self.st = r[1]
        return self.st.simp(r[0]), ex

    def mem(self, p, off, n):
        return self.st.mem[p.obj].read(off, n) if n else 0


def _maybe_cstr(prog):
    def m(eng, fr, ins, a, st):
        nm = ins.x['callee'][1]
        d = prog.dem(nm)
        if len(a) == 3 and '(char const*, std::allocator<char> const&)' in d:
            return m_string_cstr(eng, fr, ins, a, st)
        return NotImplemented
    return m
