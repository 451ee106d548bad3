"""C32: the JavaScript bindings hand out exactly what the library computes."""
from .. import terms as T, program as PR, spec as SP, xmss as XM, klass as K, text as X, binding as B, rand as R
from ..core import check
from ..interp import Ptr, DEAD
from ..terms import Undecided, S
from .hashes import loc
from .keys import P4
from .verify import inb
from .desc import verify_models

GROUPS = ['jsxmss', 'text', 'xmss', 'qrl', 'drv', 'shasha']
HFS = {'SHA2_256': 0, 'SHAKE_128': 1, 'SHAKE_256': 2}


def program():
    return PR.load(GROUPS, need=False)


def api(models=None, genkey=True):
    prog = program()
    m = dict(XM.opaque(prog, K.ALL))
    if genkey:
        m.update(K.genkey_models(prog, 0, P4()))
    m.update(models or {})
    return X.Api(prog, models=m)


_b = {}


def binding():
    if 'b' not in _b:
        _b['b'] = B.Binding(api())
    return _b['b']


class Duo:
    """the same operations through the binding and through the C++ interface, in one abstract run"""

    def __init__(self, c, rule, a=None, b=None):
        self.c, self.rule = c, rule
        self.a = a or api()
        self.b = b or binding()

    def js(self, cls, name, *args, self_=0, out=0):
        return self.b.call(self.a, cls, name, *args, self_=self_, out=out)

    def loc(self, cls, name):
        return self.b.where(self.a, cls, name)

    def raises(self, nm, l, ex, v, cx, cv):
        """both calls must end alike; true when both return"""
        if cv is None:
            self.c.true('refuses-alike', nm, v is None and bool(ex), 'the library refuses, the binding returns a result', l)
            return False
        if cx:
            raise Undecided('the library raises on some inputs only')
        self.c.true('refuses-alike', nm, v is not None and not ex, 'the binding raises %s' % [K.excname(e) for e in ex], l)
        return v is not None and not ex

    def value(self, nm, cls, name, args, direct, dargs, self_=0, w=32):
        v, ex, _, _ = self.js(cls, name, *args, self_=self_)
        cv, cx = self.a.call(direct, *dargs)
        l = self.loc(cls, name)
        if self.raises(nm, l, ex, v, cx, cv):
            # the part the type carries
            f = lambda x: x & T.mask(w) if isinstance(x, int) else T.extract(x, x.w, 0, w) if x.w > w else T.zext(x, x.w, w)
            self.c.equal(self.rule, nm, f(v), f(cv), w, l)

    def data(self, nm, cls, name, args, direct, dargs, n, self_=0, conv=None, outlen=None):
        """bytes, or the text conv makes of them"""
        a = self.a
        v, ex, o, _ = self.js(cls, name, *args, self_=self_, out=outlen or 4 * n + 64)
        d = a.out(4 * n + 64)
        cv, cx = a.call(direct, *(list(dargs) + [d]))
        l = self.loc(cls, name)
        if not self.raises(nm, l, ex, v, cx, cv):
            return None
        if not isinstance(cv, int):
            raise Undecided('size of the library result not determined')
        want = a.mem(d, 0, cv)
        wl = cv
        if conv:
            wl, want = conv(want, cv)
        if self.c.equal(self.rule, nm + ': length', v, wl, 64, l) and wl:
            self.c.equal(self.rule, nm, a.mem(o, 0, wl), want, 8 * wl, l)
        return o, wl


_same = {}


def same(x, y):
    r = _same.get((x, y))
    if r is None:
        r = _same[(x, y)] = R.exhaust(x, y) is True
    return r


def canonical(a, raw):
    """hstr2bin is interpreted; bytes of its result that equal a byte of raw (decided over all values of the digits) take that form"""
    def m(eng, fr, ins, args, st):
        fn = a.prog.find('hstr2bin')
        if fn is None or len(args) != 2:
            return NotImplemented
        r = eng.call(fn, args, st, ins)
        if r is None:
            return DEAD
        v, st2 = r
        b, e = eng.load(st2, args[0], 8), eng.load(st2, Ptr(args[0].obj, args[0].off + 8), 8)
        if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is e.obj and isinstance(e.off, int):
            for i in range(min(e.off - b.off, len(raw))):
                x = eng.load(st2, Ptr(b.obj, b.off + i), 1)
                if isinstance(x, S) and x != raw[i] and same(x, raw[i]):
                    eng.store(st2, Ptr(b.obj, b.off + i), 1, raw[i])
        return v, st2
    a.eng.models['hstr2bin'] = m


def hexof(v, n):
    return 2 * n, T.concat([(X.hexdigit(T.extract(v, 8 * n, 8 * i + 4 * (1 - k), 4)), 8) for i in range(n) for k in range(2)])


def qhexof(v, n):
    n2, h = hexof(v, n)
    return n2 + 1, T.concat([(ord('Q'), 8), (h, 8 * n2)])


def make(d, c, nm, h, hf, n=48, basic=None, name='fromParameters'):
    """(binding object, library object) or None"""
    a = d.a
    s = a.inp('SEED', n)
    if basic is None:
        v, ex, _, o = d.js('Xmss', 'fromParameters', (s, n), h, hf)
        cv, cx = a.call('vsa_fast_new', s, n, h, hf, 0)
    else:
        v, ex, _, o = d.js('XmssBasic', 'fromParameters', (s, n), h, hf, 0, basic)
        cv, cx = a.call('vsa_basic_new', s, n, h, hf, 0, basic)
    if not d.raises(nm, d.loc('Xmss' if basic is None else 'XmssBasic', 'fromParameters'), ex, v, cx, cv):
        return None
    return o, cv


def accessors(c, h, hf, w=None):
    d = Duo(c, 'accessor')
    cls = 'Xmss' if w is None else 'XmssBasic'
    nm = '%s h=%d hash %d%s' % (cls, h, hf, '' if w is None else ' w=%d' % w)
    r = make(d, c, nm + ' fromParameters', h, hf, basic=w)
    if r is None:
        return
    o, x = r
    J = lambda name, direct, n, conv=None: d.data('%s %s' % (nm, name), cls, name, (), direct, (x,), n, self_=o, conv=conv)
    d.value(nm + ' getIndex', cls, 'getIndex', (), 'vsa_index', (x,), self_=o)
    d.value(nm + ' getHeight', cls, 'getHeight', (), 'vsa_height', (x,), self_=o)
    J('getPK', 'vsa_pk', 67, hexof)
    J('getHexSeed', 'vsa_extseed', 51, hexof)
    if w is None:
        J('getPKRaw', 'vsa_pk', 67)
        J('getAddressRaw', 'vsa_address', 39)
        J('getAddress', 'vsa_address', 39, qhexof)
        a = d.a
        e = a.out(64)
        n, _ = a.call('vsa_extseed', x, e)
        if n == 51:
            d.data(nm + ' getMnemonic', cls, 'getMnemonic', (), 'vsa_bin2mnemonic', (e, 51), 300, self_=o)
    c.use(d.a.eng)


def refused(c, h, hf, n, w=None):
    d = Duo(c, 'accessor')
    make(d, c, '%s fromParameters: seed of %d bytes, h=%d, hash %d%s' % ('Xmss' if w is None else 'XmssBasic', n, h, hf, '' if w is None else ' w=%d' % w), h, hf, n, w)
    c.use(d.a.eng)


def recreate(c, h, hf):
    """a wallet from its hex seed or mnemonic is the wallet it came from"""
    d = Duo(c, 'recreate')
    nm = 'Xmss h=%d hash %d' % (h, hf)
    r = make(d, c, nm + ' fromParameters', h, hf)
    if r is None:
        return
    o, x = r
    a = d.a
    a.call('vsa_extseed', x, a.out(64))
    for get, new in (('getHexSeed', 'fromHexSeed'), ('getMnemonic', 'fromMnemonic')):
        n, ex, buf, _ = d.js('Xmss', get, self_=o, out=1024)
        l = d.loc('Xmss', new)
        if not isinstance(n, int):
            raise Undecided('%s: length not determined' % get)
        v, ex, _, o2 = d.js('Xmss', new, (buf, n))
        if not c.true('recreate', '%s: %s(%s())' % (nm, new, get), v is not None and not ex, 'raises %s' % [K.excname(e) for e in ex], l):
            continue
        for name, dn, conv in (('getHexSeed', 'vsa_extseed', hexof), ('getPK', 'vsa_pk', hexof), ('getAddress', 'vsa_address', qhexof)):
            d.data('%s: %s(%s()).%s()' % (nm, new, get, name), 'Xmss', name, (), dn, (x,), 67, self_=o2, conv=conv)
        d.value('%s: %s(%s()).getHeight()' % (nm, new, get), 'Xmss', 'getHeight', (), 'vsa_height', (x,), self_=o2)
    c.use(a.eng)


def life(c, w=None):
    """signing through the binding beside signing through the class, keys made for real (hash functions opaque)"""
    d = Duo(c, 'sign', api(genkey=False))
    cls = 'Xmss' if w is None else 'XmssBasic'
    h, hf = 4, 1
    nm = '%s h=4%s' % (cls, '' if w is None else ' w=%d' % w)
    r = make(d, c, nm + ' fromParameters', h, hf, basic=w)
    if r is None:
        return
    o, x = r
    a = d.a
    n = 4 + 32 + 32 * XM.wots_len(w or 16)[3] + 32 * h
    ml = T.var('MLEN', 64, 1, (1 << 40) - 1)
    for step in ('sign', 'sign', 5, 'sign', 16, 15, 'sign', 'sign', 3):
        m = a.inp('MSG', ml)
        i, _ = a.call('vsa_index', x)
        if step == 'sign':
            d.data('%s sign at index %s' % (nm, i), cls, 'sign', ((m, ml),), 'vsa_sign', (x, m, ml), n, self_=o, outlen=n + 64)
        else:
            if step < i and w is not None:
                continue
            d.value('%s setIndex(%d) at index %s' % (nm, step, i), cls, 'setIndex', (step,), 'vsa_set_index', (x, step), self_=o)
        d.value('%s getIndex after %s at %s' % (nm, step, i), cls, 'getIndex', (), 'vsa_index', (x,), self_=o)
    c.use(a.eng)


def verification(c, cls, sn, pn, b0, b1, w, ml):
    prog = program()
    calls = []
    m = verify_models(prog, calls, T.var('VERDICT', 32))
    d = Duo(c, 'verdict', api(m))
    a = d.a
    msg, sig, pk = a.inp('MSG', ml), a.inp('SIG', sn), a.inp('PK', pn)
    if pn > 1:
        a.st.mem[pk.obj].write(0, 1, b0)
        a.st.mem[pk.obj].write(1, 1, b1)
    nm = '%s.verify: signature of %d bytes, key %d bytes %02x%02x%s' % (cls, sn, pn, b0, b1, '' if cls == 'Xmss' else ', w=%d' % w)
    args = [(msg, ml), (sig, sn), (pk, pn)] + ([w] if cls != 'Xmss' else [])
    d.value(nm, cls, 'verify', args, 'vsa_verify', (msg, ml, sig, sn, pk, pn, w), w=1)
    c.use(a.eng)
    l = d.loc(cls, 'verify')
    if len(calls) != 2:
        if calls:
            c.true('verdict-arguments', nm, False if len(calls) == 1 else None, 'core verification is reached %d times for two calls' % len(calls), l)
        return
    got = []
    for eng, st, (hf, wp, m2, ml2, s2, p2, h2) in calls:
        got.append((hf, eng.load(st, Ptr(wp.obj, wp.off + 16), 4), ml2, eng.bytes_of(st, s2, sn), eng.bytes_of(st, p2, 64), h2, eng, st, m2))
    for i, (what, wd) in enumerate((('hash function', 32), ('Winternitz parameter', 32), ('message length', 64), ('signature', 8 * sn), ('key', 512), ('height', 32))):
        c.equal('verdict-arguments', '%s: %s' % (nm, what), got[0][i], got[1][i], wd, l)
    if ml != 0:
        c.rope('verdict-arguments', nm + ': message', got[0][6].copy_out(got[0][7], got[0][8], ml), (('s', ml, T.seq('MSG'), 0),), got[0][7], l)


def address_text(d, nbytes, b0, b1, q='Q'):
    a = d.a
    raw = a.inp('ADR', nbytes)
    for i, b in enumerate((b0, b1)):
        if b is not None and i < nbytes:
            a.st.mem[raw.obj].write(i, 1, b)
    n, h = hexof(a.mem(raw, 0, nbytes), nbytes) if nbytes else (0, 0)
    canonical(a, [a.mem(raw, i, 1) for i in range(nbytes)])
    t = a.inp('text', n + len(q), T.concat([(ord(x), 8) for x in q] + ([(h, 8 * n)] if n else [])))
    return t, n + len(q), raw


def desc_access(c, b0, b1, nbytes):
    """getHashFunction, getSignatureType, getHeight of an address text"""
    for name, i in (('getHashFunction', 0), ('getSignatureType', 1), ('getHeight', 2)):
        d = Duo(c, 'descriptor')
        a = d.a
        t, n, raw = address_text(d, nbytes, b0, b1)
        v, ex, _, _ = d.js('', name, (t, n))
        l = d.loc('', name)
        nm = "%s('Q' + hex of %d bytes %02x%02x)" % (name, nbytes, b0, b1)
        if nbytes < 3:
            c.true('refuses-alike', nm, v is None and bool(ex), 'a result is returned for a text with no descriptor', l)
            continue
        f, b = a.out(16), a.out(3)
        cv, cx = a.call('vsa_desc_from', raw, 3, f, b)
        if cx:
            c.true('refuses-alike', nm, v is None and bool(ex), 'the library refuses the descriptor, the binding returns a result', l)
            continue
        c.true('refuses-alike', nm, v is not None and not ex, 'raises %s' % [K.excname(e) for e in ex], l)
        if v is not None and not ex:
            c.equal('descriptor', nm, T.extract(v, 64, 0, 32) if isinstance(v, S) else v, a.mem(f, 4 * i, 4), 32, l)
        c.use(a.eng)


def address_valid(c, nbytes, b0, b1):
    d = Duo(c, 'address')
    a = d.a
    t, n, raw = address_text(d, nbytes, b0, b1)
    nm = "validateAddress('Q' + hex of %d bytes %02x%02x)" % (nbytes, b0 or 0, b1 or 0)
    l = d.loc('', 'validateAddress')
    v, ex, _, _ = d.js('', 'validateAddress', (t, n))
    cv, cx = a.call('vsa_addr_valid', raw, nbytes)
    c.use(a.eng)
    if cv is None or cx:
        raise Undecided('addressIsValid raises')
    f = lambda x: x & 1 if isinstance(x, int) else T.extract(x, x.w, 0, 1)
    if v is None or ex:
        # a text that cannot be an address may be refused instead
        c.true('address', nm, True if cv == 0 else False, 'raises %s for what may be a valid address' % [K.excname(e) for e in ex], l)
    else:
        c.equal('address', nm, f(v), f(cv), 1, l)
    d.value('validateAddressRaw of %d bytes %02x%02x' % (nbytes, b0 or 0, b1 or 0), '', 'validateAddressRaw', ((raw, nbytes),), 'vsa_addr_valid', (raw, nbytes), w=1)


def address_of(c, nbytes, b0, b1):
    d = Duo(c, 'address')
    a = d.a
    t, n, raw = address_text(d, nbytes, b0, b1, '')
    nm = 'hex of %d bytes %02x%02x' % (nbytes, b0 or 0, b1 or 0)
    d.data('getAddress(%s)' % nm, '', 'getAddress', ((t, n),), 'vsa_addr_of', (raw, nbytes), 64, conv=hexof)
    d.data('getAddressRaw(%s)' % nm, '', 'getAddressRaw', ((raw, nbytes),), 'vsa_addr_of', (raw, nbytes), 64)
    c.use(a.eng)


def helpers(c, n):
    d = Duo(c, 'helper')
    a = d.a
    x = a.inp('X', n)
    d.data('sha2_256 of %d bytes' % n, '', 'sha2_256', ((x, n),), 'vsa_vsha2', (x, n), 40)
    for k in (32, 64, 1):
        d.data('shake128(%d) of %d bytes' % (k, n), '', 'shake128', (k, (x, n)), 'vsa_vshake128', (k, x, n), k)
    d.data('bin2hstr of %d bytes' % n, '', 'bin2hstr', ((x, n),), 'vsa_bin2hstr', (x, n, 0), 2 * n + 16)
    if n % 3 == 0:
        d.data('bin2mnemonic of %d bytes' % n, '', 'bin2mnemonic', ((x, n),), 'vsa_bin2mnemonic', (x, n), 16 * n + 16, outlen=64 * n + 64)
    d.data('str2bin of %d characters' % n, '', 'str2bin', ((x, n),), 'vsa_str2bin', (x, n), n + 16)
    if n:
        nt, h = hexof(inb('X', n), n)
        t = a.inp('text', nt, h)
        d.data('hstr2bin of %d digits' % nt, '', 'hstr2bin', ((t, nt),), 'vsa_hstr2bin', (t, nt), nt)
    if n % 3 == 0 and n:
        m = a.out(64 * n)
        k, ex = a.call('vsa_bin2mnemonic', x, n, m)
        if isinstance(k, int):
            d.data('mnemonic2bin of %d words' % (2 * n // 3), '', 'mnemonic2bin', ((m, k),), 'vsa_mnemonic2bin', (m, k), 4 * n)
    c.use(a.eng)


def shake_sizes(c, n, k):
    d = Duo(c, 'helper')
    x = d.a.inp('X', n)
    d.data('shake128(%d) of %d bytes' % (k, n), '', 'shake128', (k, (x, n)), 'vsa_vshake128', (k, x, n), k)
    c.use(d.a.eng)


def big_helpers(c, n):
    d = Duo(c, 'helper')
    a = d.a
    x = a.inp('X', n)
    d.data('sha2_256 of %d bytes' % n, '', 'sha2_256', ((x, n),), 'vsa_vsha2', (x, n), 40)
    d.data('shake128(64) of %d bytes' % n, '', 'shake128', (64, (x, n)), 'vsa_vshake128', (64, x, n), 64)
    y = a.text(pattern(n, 9))
    d.data('bin2hstr of %d bytes' % n, '', 'bin2hstr', ((y, n),), 'vsa_bin2hstr', (y, n, 0), 2 * n + 16)
    d.data('str2bin of %d characters' % n, '', 'str2bin', ((x, n),), 'vsa_str2bin', (x, n), n + 16)
    t = pattern(n, 9).hex().encode()
    t, nt = a.text(t), len(t)
    d.data('hstr2bin of %d digits' % nt, '', 'hstr2bin', ((t, nt),), 'vsa_hstr2bin', (t, nt), nt)
    c.use(a.eng)


# ------------------------------------------------------------------ Dilithium and Kyber
def pattern(n, k):
    return bytes((i * 167 + i // 251 * 29 + k) & 255 for i in range(n))


def pq_duo(c, k, which, rule, ret=None):
    from . import pq
    prog = pq.js_pq_program()
    cs = pq.Case(prog, k, ret, base=X.Api)
    b = _b.get(which)
    if b is None:
        b = _b[which] = B.Binding(pq.Case(prog, k, 0, base=X.Api).a, which)
    d = Duo(c, rule, cs.a, b)
    d.lib = cs.lib
    return d


def hext(a, b):
    t = b.hex().encode()
    return a.text(t), len(t)


def pq_keys(c, k, which, how):
    cls, dr, kp, ks = ('Dilithium', 'vsa_dil_', k['dpk'], k['dsk']) if which == 'jsdil' else ('Kyber', 'vsa_kyb_', k['kpk'], k['ksk'])
    d = pq_duo(c, k, which, 'accessor', 0)
    a = d.a
    nm = '%s.%s' % (cls, how)
    if how == 'empty':
        v, ex, _, o = d.js(cls, 'empty')
        cv, cx = a.call(dr + 'gen')
    else:
        p, s = pattern(kp, 1), pattern(ks, 2)
        v, ex, _, o = d.js(cls, 'fromKeys', hext(a, p), hext(a, s))
        cv, cx = a.call(dr + 'new', a.text(p), kp, a.text(s), ks)
    if not d.raises(nm, d.loc(cls, how), ex, v, cx, cv):
        return
    for name, dn, n, conv in (('getPKRaw', 'pk', kp, None), ('getPK', 'pk', kp, hexof), ('getSKRaw', 'sk', ks, None), ('getSK', 'sk', ks, hexof)):
        d.data('%s().%s()' % (nm, name), cls, name, (), dr + dn, (cv,), n, self_=o, conv=conv)
    if which == 'jsdil':
        for ln in (0, 1, 5):
            raw = a.inp('MSG', ln)
            canonical(a, [a.mem(raw, i, 1) for i in range(ln)])
            n, h = hexof(inb('MSG', ln), ln) if ln else (0, 0)
            t = a.inp('text', n, h)
            d.lib.calls.clear()
            d.data('%s().sign(message of %d bytes)' % (nm, ln), cls, 'sign', ((t, n),), dr + 'sign', (cv, raw, ln), ln + k['dsig'], self_=o, conv=hexof)
            same_calls(d, '%s().sign(message of %d bytes)' % (nm, ln), d.loc(cls, 'sign'))
    else:
        kem(d, k, nm, o, cv)
    c.use(a.eng)


def same_calls(d, nm, l):
    """the reference routine got the same bytes from both"""
    cs = d.lib.calls
    if len(cs) != 2:
        d.c.true('same-arguments', nm, None, 'the reference routine is called %d times for two operations' % len(cs), l)
        return
    d.c.true('same-arguments', nm + ': routine', cs[0]['fn'] == cs[1]['fn'], '%s and %s' % (cs[0]['fn'], cs[1]['fn']), l)
    for x in cs[1]['args']:
        h, need, v = cs[0]['args'].get(x, (None, None, None))
        h2, need2, v2 = cs[1]['args'][x]
        if isinstance(v2, (int, S)):
            d.c.equal('same-arguments', '%s: %s' % (nm, x), v, v2, 8 * need2 if isinstance(need2, int) else None, l)


def kem(d, k, nm, o, cv):
    a = d.a
    for op, n in (('enc', k['kpk']), ('dec', k['kct']), ('enc', k['kpk'])):
        b = pattern(n, 3)
        name = 'kem_%sode' % op
        d.lib.calls.clear()
        for r in ((0,) if op == 'enc' else (0, 1)):
            d.lib.ret = r
            d.lib.calls.clear()
            d.value('%s().%s(), outcome %d' % (nm, name, r), 'Kyber', name, (hext(a, b),), 'vsa_kyb_' + op, (cv, a.text(b), n), self_=o, w=1)
            same_calls(d, '%s().%s()' % (nm, name), d.loc('Kyber', name))
            if r == 0:
                d.data('%s() after %s: getMyKey' % (nm, name), 'Kyber', 'getMyKey', (), 'vsa_kyb_key', (cv,), k['kss'], self_=o, conv=hexof)
                if op == 'enc':
                    d.data('%s() after %s: getCypherText' % (nm, name), 'Kyber', 'getCypherText', (), 'vsa_kyb_ct', (cv,), k['kct'], self_=o, conv=hexof)


def dil_static(c, k):
    for n in (k['dsig'] + 5, k['dsig']):
        for ret in (0, 1, T.mask(32)):
            d = pq_duo(c, k, 'jsdil', 'verdict', ret)
            a = d.a
            sm, pk = pattern(n, 4), pattern(k['dpk'], 5)
            nm = 'Dilithium.sign_open of %d bytes, outcome %d' % (n, T.tosigned(ret, 32))
            l = d.loc('Dilithium', 'sign_open')
            v, ex, o, _ = d.js('Dilithium', 'sign_open', (a.text(b''), 0), hext(a, sm), hext(a, pk), out=4 * n)
            m, ln = a.out(n + 64), a.out(8)
            cv, cx = a.call('vsa_dil_open', a.text(sm), n, a.text(pk), k['dpk'], 0, m, ln)
            same_calls(d, nm, l)
            if cv is None or cx:
                raise Undecided('the C++ operation raises')
            cn = a.mem(ln, 0, 8)
            if ret == 0:
                c.true('refuses-alike', nm, v is not None and not ex, 'raises', l)
                if v is not None and isinstance(cn, int):
                    wl, want = hexof(a.mem(m, 0, cn), cn) if cn else (0, 0)
                    if c.equal('verdict', nm + ': length', v, wl, 64, l) and wl:
                        c.equal('verdict', nm, a.mem(o, 0, wl), want, 8 * wl, l)
            c.use(a.eng)
        d = pq_duo(c, k, 'jsdil', 'accessor', 0)
        a = d.a
        for n in (n, n + 4200):
            sm = pattern(n, 6)
            d.data('Dilithium.extract_message of %d bytes' % n, 'Dilithium', 'extract_message', (hext(a, sm),), 'vsa_dil_msg', (a.text(sm), n), n, conv=hexof)
        c.use(a.eng)


def pq_bindings(c):
    from . import pq
    k = pq.consts(pq.program())
    for which in ('jsdil', 'jskyb'):
        for how in ('empty', 'fromKeys'):
            c.section('accessor', '%s %s' % (which, how), pq_keys, c, k, which, how)
    c.section('verdict', 'Dilithium', dil_static, c, k)


def enums(c):
    b = binding()
    for en, name, want in [('eHashFunction', k, v) for k, v in HFS.items()] + [('eSignatureType', 'XMSS', 0), ('eAddrFormatType', 'SHA256_2X', 0)]:
        v = b.values.get((en, name))
        if v is None:
            c.und('enum-value', '%s.%s' % (en, name), 'not registered')
        else:
            c.equal('enum-value', '%s.%s' % (en, name), T.extract(v, 64, 0, 32) if isinstance(v, S) else v & T.mask(32), want, 32, 'src/jswrapper/jsqrlwrapper.cpp')


@check('C32', 'other', 'differential abstract interpretation of LLVM IR: every registered JavaScript function beside the C++ interface',
       'EMSCRIPTEN_BINDINGS is interpreted to find the function registered under every JavaScript name; each is then interpreted next to the '
       'corresponding C++ operation on the same abstract inputs (hash functions opaque; core verification and, except for signing, key '
       'generation by contract) for an enumerated set of sizes, heights and descriptor bytes: results must be equal terms, text being the '
       'hexadecimal or mnemonic form of the same bytes, and both must refuse alike.')
def c32(c):
    R = 'accessor'
    th = c.thorough
    if c.section(R, 'bindings', binding) is None:
        return
    enums(c)
    for h in (4, 10, 18, 30) if not th else range(4, 31, 2):
        for hf in range(3):
            c.section(R, 'Xmss h=%d hash %d' % (h, hf), accessors, c, h, hf)
            if th or (h, hf) in ((4, 0), (10, 1), (30, 2)):
                c.section('recreate', 'recreate h=%d hash %d' % (h, hf), recreate, c, h, hf)
    for w in (4, 16, 256):
        for h, hf in ((4, 0), (10, 1), (12, 2)):
            c.section(R, 'XmssBasic h=%d hash %d w=%d' % (h, hf, w), accessors, c, h, hf, w)
    for h, hf, n in ((4, 1, 47), (4, 1, 49), (4, 1, 0), (5, 1, 48), (2, 1, 48), (0, 1, 48), (31, 1, 48), (32, 1, 48), (255, 0, 48), (10, 3, 48), (10, 1, 51)):
        c.section('refuses-alike', 'Xmss %d %d %d' % (h, hf, n), refused, c, h, hf, n)
        c.section('refuses-alike', 'XmssBasic %d %d %d' % (h, hf, n), refused, c, h, hf, n, 16)
    for w in (0, 1, 3, 8, 32):
        c.section('refuses-alike', 'XmssBasic w=%d' % w, refused, c, 10, 1, 48, w)
    c.section('sign', 'Xmss', life, c)
    for w in (16, 4):
        c.section('sign', 'XmssBasic w=%d' % w, life, c, w)
    ml = T.var('MLEN', 64, 1, (1 << 40) - 1)
    for cls, ws in (('Xmss', (16,)), ('XmssBasic', (4, 16, 256, 5))):
        for w in ws:
            base = 4 + 32 + 32 * XM.wots_len(w if w != 5 else 16)[3]
            for h in (4, 10, 30):
                for b0 in (0, 1, 2):
                    c.section('verdict', '%s.verify h=%d w=%d' % (cls, h, w), verification, c, cls, base + 32 * h, 67, b0, h // 2, w, ml)
            for sn, pn, b0, b1 in ((base + 320, 67, 3, 5), (base + 320, 67, 17, 5), (base + 320, 67, 1, 6), (base + 321, 67, 1, 5), (0, 67, 1, 5), (base + 320, 66, 1, 5), (base + 320, 68, 1, 5), (base + 320, 0, 1, 5)):
                c.section('verdict', '%s.verify %d %d %d %d' % (cls, sn, pn, b0, b1), verification, c, cls, sn, pn, b0, b1, w, ml)
    base = 4 + 32 + 32 * XM.wots_len(16)[3]
    for w in (0, 1, 2, 3, 8, 15, 17, 32, 255, 272, 65552, (1 << 31) + 16):
        c.section('verdict', 'XmssBasic.verify w=%d' % w, verification, c, 'XmssBasic', base + 320, 67, 1, 5, w, ml)
    for b0 in (0, 1, 2, 3, 15):
        for b1 in (2, 5, 9, 15):
            c.section('descriptor', 'address %02x%02x' % (b0, b1), desc_access, c, b0, b1, 39)
    for n in (0, 1, 2, 3, 4):
        c.section('descriptor', 'address of %d bytes' % n, desc_access, c, 1, 5, n)
    for n, b0, b1 in ((39, 0, 5), (39, 1, 2), (39, 2, 15), (39, 3, 5), (39, 1, 0x15), (39, 17, 5), (38, 1, 5), (40, 1, 5), (35, 1, 5), (3, 1, 5), (67, 1, 5)):
        c.section('address', 'validateAddress %d %d %d' % (n, b0, b1), address_valid, c, n, b0, b1)
    for n, b0, b1 in ((67, 0, 5), (67, 1, 2), (67, 2, 15), (67, 3, 5), (67, 1, 0x15), (66, 1, 5), (68, 1, 5), (39, 1, 5)):
        c.section('address', 'getAddress %d %d %d' % (n, b0, b1), address_of, c, n, b0, b1)
    for n in (0, 1, 3, 31, 32, 48, 51) + ((67, 100, 136, 168, 300) if th else ()):
        c.section('helper', 'helpers on %d bytes' % n, helpers, c, n)
    for n in (300, 4097, 9001):
        c.section('helper', 'helpers on %d bytes' % n, big_helpers, c, n)
    for n, k in ((32, 168), (32, 169), (32, 257), (48, 337), (32, 1001), (5, 5000)):
        c.section('helper', 'shake128(%d)' % k, shake_sizes, c, n, k)
    c.section('accessor', 'Dilithium and Kyber', pq_bindings, c)
    c.assumptions += ['the reference Dilithium and Kyber routines by their documented interface', 'embind passes arguments and results faithfully', 'allocation does not fail']
