"""C22: foreign buffers are length-checked, C23: no outcome is dropped, C28: signed messages are split where they were joined."""
from .. import terms as T, program as PR, spec as SP, klass as K, text as TX, xmss as X, rand as R
from ..core import check
from ..interp import Ptr, i2p
from ..klass import excname
from ..terms import Undecided, S
from .hashes import loc
from .verify import inb


class Lib:
    """the reference implementations, by their documented interface: records what they are handed"""

    def __init__(self, k, ret=None):
        self.k = k
        self.calls = []
        self.ret = ret
        self.concrete = None        # content of the buffers produced, instead of unknown bytes

    def use(self, eng, st, fn, specs):
        """specs: (parameter, pointer, required bytes, role)"""
        rec = dict(fn=fn, site=eng.site(), args={})
        for nm, p, need, role in specs:
            p = i2p(p)
            if p == 0:
                rec['args'][nm] = (0, need, None)
                continue
            have = p.obj.size - p.off if isinstance(p, Ptr) and isinstance(p.obj.size, int) and isinstance(p.off, int) else None
            v = None
            if role == 'in' and have is not None and isinstance(need, int) and have >= need:
                v = eng.bytes_of(st, p, need) if need else 0
            rec['args'][nm] = (have, need, v)
        self.calls.append(rec)
        return rec

    def fill(self, eng, st, p, name, n):
        p = i2p(p)
        if p == 0:
            return
        if isinstance(p.obj.size, int) and isinstance(p.off, int):
            n = min(n, max(0, p.obj.size - p.off))
        if n and self.concrete is not None:
            eng.copy_in(st, p, [('v', n, int.from_bytes(self.concrete(n), 'little'))])
        elif n:
            eng.copy_in(st, p, [('v', n, inb(name, n))])

    def result(self, nm):
        return self.ret if self.ret is not None else T.var(nm, 32)

    def models(self):
        k = self.k

        def sign_keypair(eng, fr, ins, a, st):
            self.use(eng, st, 'crypto_sign_keypair', (('pk', a[0], k['dpk'], 'out'), ('sk', a[1], k['dsk'], 'out')))
            self.fill(eng, st, a[0], 'GENPK', k['dpk'])
            self.fill(eng, st, a[1], 'GENSK', k['dsk'])
            return 0

        def sign(eng, fr, ins, a, st):
            n = st.simp(a[3])
            self.use(eng, st, 'crypto_sign', (('sm', a[0], n + k['dsig'] if isinstance(n, int) else None, 'out'), ('m', a[2], n, 'in'), ('sk', a[4], k['dsk'], 'in')))
            if isinstance(n, int):
                self.fill(eng, st, a[0], 'SIGNED', n + k['dsig'])
                eng.store(st, i2p(a[1]), 8, n + k['dsig'])
            return 0

        def sopen(eng, fr, ins, a, st):
            n = st.simp(a[3])
            self.use(eng, st, 'crypto_sign_open', (('m', a[0], n, 'out'), ('sm', a[2], n, 'in'), ('pk', a[4], k['dpk'], 'in')))
            if isinstance(n, int):
                self.fill(eng, st, a[0], 'OPENED', n)
                eng.store(st, i2p(a[1]), 8, (n - k['dsig']) & T.mask(64))
            return self.result('OPENRET')

        def kem_keypair(eng, fr, ins, a, st):
            self.use(eng, st, 'crypto_kem_keypair', (('pk', a[0], k['kpk'], 'out'), ('sk', a[1], k['ksk'], 'out')))
            self.fill(eng, st, a[0], 'GENPK', k['kpk'])
            self.fill(eng, st, a[1], 'GENSK', k['ksk'])
            return 0

        def enc(eng, fr, ins, a, st):
            self.use(eng, st, 'crypto_kem_enc', (('ct', a[0], k['kct'], 'out'), ('ss', a[1], k['kss'], 'out'), ('pk', a[2], k['kpk'], 'in')))
            self.fill(eng, st, a[0], 'CT', k['kct'])
            self.fill(eng, st, a[1], 'SS', k['kss'])
            return self.result('ENCRET')

        def dec(eng, fr, ins, a, st):
            self.use(eng, st, 'crypto_kem_dec', (('ss', a[0], k['kss'], 'out'), ('ct', a[1], k['kct'], 'in'), ('sk', a[2], k['ksk'], 'in')))
            self.fill(eng, st, a[0], 'SS', k['kss'])
            return self.result('DECRET')
        return dict(crypto_sign_keypair=sign_keypair, crypto_sign=sign, crypto_sign_open=sopen, crypto_kem_keypair=kem_keypair,
                    crypto_kem_enc=enc, crypto_kem_dec=dec)


def consts(prog):
    a = K.Api(prog)
    v = lambda n: a.value(n)
    return dict(dpk=v('vsa_dil_pkbytes'), dsk=v('vsa_dil_skbytes'), dsig=v('vsa_dil_bytes'), kpk=v('vsa_kyb_pkbytes'), ksk=v('vsa_kyb_skbytes'),
                kct=v('vsa_kyb_ctbytes'), kss=v('vsa_kyb_symbytes'))


def program():
    return PR.load(['pqdrv'], need=False)


class Case:
    """one run over the wrappers"""

    def __init__(self, prog, k, ret=None, base=K.Api):
        self.lib = Lib(k, ret)
        self.a = base(prog, models=self.lib.models())
        self.k = k

    def call(self, drv, *args):
        self.lib.calls.clear()
        return self.a.call(drv, *args)

    def ready(self, drv, *args):
        v, ex = self.call(drv, *args)
        if v is None or ex:
            raise Undecided('%s raises %s' % (drv, ex))
        return v


def sizes(n, thorough, extra=()):
    s = {0, 1, 2, 31, 32, 33, 48, 64, n // 2, n - 32, n - 2, n - 1, n, n + 1, n + 2, n + 32, 2 * n} | {x + d for x in extra for d in (-1, 0, 1)}
    if thorough:
        s |= set(range(0, n + 64, 1))
    return sorted(x for x in s if x >= 0)


def handed(c, rule, nm, cs, l, fn, want):
    """exactly one call of fn, every buffer large enough, the inputs as given"""
    calls = [r for r in cs.lib.calls if r['fn'] == fn]
    if not calls:
        c.bad(rule, nm, '%s is not called' % fn, l)
        return
    r = calls[-1]
    for arg, (have, need, v) in r['args'].items():
        if have is None or need is None:
            c.und(rule, '%s: %s argument %s' % (nm, fn, arg), 'buffer size not determined', r['site'])
            continue
        c.true(rule, '%s: %s argument %s holds %d bytes' % (nm, fn, arg, need), have >= need, 'the buffer has %d bytes' % have, r['site'])
        if arg in want and v is not None and need:
            c.equal(rule, '%s: %s argument %s is the given one' % (nm, fn, arg), v, want[arg], 8 * need, r['site'])


def refused(c, nm, cs, v, ex, l, what, boolean):
    """a wrong size is refused: an exception (or a false result) and nothing handed to the reference code"""
    calls = [r['fn'] for r in cs.lib.calls]
    ok = v is None and bool(ex) or (boolean and v == 0)
    if isinstance(v, S):
        ok = None if not calls else False
    c.true('refuses-wrong-size', nm, ok and not calls if ok is not None else None,
           '%s is %s' % (what, 'handed to %s' % ', '.join(calls) if calls else 'accepted'), l)


def L(prog, n):
    f = prog.find(n)
    return loc(f) if f else None


def dil_ctor(c, prog, k, pn, sn):
    cs = Case(prog, k)
    a = cs.a
    l = L(prog, 'Dilithium::Dilithium')
    nm = 'Dilithium(pk of %d bytes, sk of %d bytes)' % (pn, sn)
    p, s = a.inp('PK', pn), a.inp('SK', sn)
    v, ex = cs.call('vsa_dil_new', p, pn, s, sn)
    c.use(a.eng)
    if (pn, sn) != (k['dpk'], k['dsk']):
        refused(c, nm, cs, v, ex, l, 'a key of the wrong size', False)
        return
    c.true('accepts-right-size', nm, v is not None and not ex, 'refused: %s' % ex, l)
    if v is None:
        return
    d = v
    o = a.out(8192)
    c.equal('holds-given-key', nm + ': public key', (cs.ready('vsa_dil_pk', d, o), a.mem(o, 0, pn))[1], inb('PK', pn), 8 * pn, l)
    c.equal('holds-given-key', nm + ': secret key', (cs.ready('vsa_dil_sk', d, o), a.mem(o, 0, sn))[1], inb('SK', sn), 8 * sn, l)
    for n in (0, 1, 32, 1000):
        m = a.inp('MSG', n)
        o = a.out(n + 8192)
        v, ex = cs.call('vsa_dil_sign', d, m, n, o)
        c.true('accepts-right-size', 'Dilithium::sign of %d bytes' % n, v is not None and not ex, 'raises %s' % ex, L(prog, 'Dilithium::sign'))
        handed(c, 'buffer-size', 'Dilithium::sign of %d bytes' % n, cs, L(prog, 'Dilithium::sign'), 'crypto_sign', {'sk': inb('SK', sn), 'm': inb('MSG', n) if n else 0})
        if v is not None:
            c.equal('result', 'Dilithium::sign of %d bytes: result size' % n, v, n + k['dsig'], 64, L(prog, 'Dilithium::sign'))


def dil_gen(c, prog, k):
    cs = Case(prog, k)
    l = L(prog, 'Dilithium::Dilithium')
    v, ex = cs.call('vsa_dil_gen')
    c.use(cs.a.eng)
    handed(c, 'buffer-size', 'Dilithium()', cs, l, 'crypto_sign_keypair', {})
    o = cs.a.out(8192)
    c.equal('result', 'Dilithium(): public key size', cs.ready('vsa_dil_pk', v, o), k['dpk'], 64, l)
    c.equal('result', 'Dilithium(): secret key size', cs.ready('vsa_dil_sk', v, o), k['dsk'], 64, l)


def dil_open(c, prog, k, sn, pn, pre=0):
    cs = Case(prog, k)
    a = cs.a
    l = L(prog, 'Dilithium::sign_open')
    nm = 'Dilithium::sign_open(%d bytes, pk of %d bytes)' % (sn, pn)
    s, p = a.inp('SM', sn), a.inp('PK', pn)
    o, ln = a.out(sn + pre + 16), a.out(8)
    v, ex = cs.call('vsa_dil_open', s, sn, p, pn, pre, o, ln)
    c.use(a.eng)
    if pn != k['dpk']:
        refused(c, nm, cs, v, ex, l, 'a public key of the wrong size', True)
        return
    if v is None and sn < k['dsig'] or v == 0 and not cs.lib.calls and sn < k['dsig']:
        c.ok('refuses-wrong-size', nm, 'shorter than a signature', l)
        return
    c.true('accepts-right-size', nm, v is not None and not ex, 'refused: %s' % ex, l)
    handed(c, 'buffer-size', nm, cs, l, 'crypto_sign_open', {'pk': inb('PK', pn), 'sm': inb('SM', sn) if sn else 0})


def dil_extract(c, prog, k, n, which):
    cs = Case(prog, k)
    a = cs.a
    f = 'extract_message' if which == 'msg' else 'extract_signature'
    l = L(prog, 'Dilithium::' + f)
    nm = 'Dilithium::%s of %d bytes' % (f, n)
    s = a.inp('SM', n)
    o = a.out(n + 8192)
    a.eng.oob.clear()
    v, ex = cs.call('vsa_dil_' + which, s, n, o)
    c.use(a.eng)
    for x in a.eng.oob:
        c.bad('bounds', nm, '%s %s %s' % x, l)
    b = k['dsig']
    if n < b:
        refused(c, nm, cs, v, ex, l, 'a signed message shorter than a signature', False)
        return
    if v is None or ex:
        c.bad('splits', nm, 'raises %s' % [excname(e) for e in ex], l)
        return
    w, off = (n - b, b) if which == 'msg' else (b, 0)
    if c.equal('splits', nm + ': size', v, w, 64, l) and w:
        c.equal('splits', nm, a.mem(o, 0, w), T.seqbytes(T.seq('SM'), off, w), 8 * w, l)


def kyb_new(cs, k):
    a = cs.a
    return cs.ready('vsa_kyb_new', a.inp('PK', k['kpk']), k['kpk'], a.inp('SK', k['ksk']), k['ksk'])


def kyb_ctor(c, prog, k, pn, sn):
    cs = Case(prog, k)
    a = cs.a
    l = L(prog, 'Kyber::Kyber')
    nm = 'Kyber(pk of %d bytes, sk of %d bytes)' % (pn, sn)
    v, ex = cs.call('vsa_kyb_new', a.inp('PK', pn), pn, a.inp('SK', sn), sn)
    c.use(a.eng)
    if (pn, sn) != (k['kpk'], k['ksk']):
        refused(c, nm, cs, v, ex, l, 'a key of the wrong size', False)
        return
    c.true('accepts-right-size', nm, v is not None and not ex, 'refused: %s' % ex, l)
    if v is None:
        return
    o = a.out(8192)
    c.equal('holds-given-key', nm + ': public key', (cs.ready('vsa_kyb_pk', v, o), a.mem(o, 0, pn))[1], inb('PK', pn), 8 * pn, l)
    c.equal('holds-given-key', nm + ': secret key', (cs.ready('vsa_kyb_sk', v, o), a.mem(o, 0, sn))[1], inb('SK', sn), 8 * sn, l)


def kyb_gen(c, prog, k):
    cs = Case(prog, k)
    l = L(prog, 'Kyber::Kyber')
    v, ex = cs.call('vsa_kyb_gen')
    c.use(cs.a.eng)
    handed(c, 'buffer-size', 'Kyber()', cs, l, 'crypto_kem_keypair', {})
    o = cs.a.out(8192)
    c.equal('result', 'Kyber(): public key size', cs.ready('vsa_kyb_pk', v, o), k['kpk'], 64, l)
    c.equal('result', 'Kyber(): secret key size', cs.ready('vsa_kyb_sk', v, o), k['ksk'], 64, l)


def kyb_op(c, prog, k, op, n, first=None):
    """kem_encode / kem_decode with an argument of n bytes; first: an operation performed before it"""
    cs = Case(prog, k)
    a = cs.a
    f = 'Kyber::kem_encode' if op == 'enc' else 'Kyber::kem_decode'
    need = k['kpk'] if op == 'enc' else k['kct']
    l = L(prog, f)
    b = kyb_new(cs, k)
    nm = '%s(%d bytes)%s' % (f, n, '' if first is None else ' after %s' % first)
    if first:
        cs.call('vsa_kyb_' + first, b, a.inp('FIRST', k['kpk'] if first == 'enc' else k['kct']), k['kpk'] if first == 'enc' else k['kct'])
    x = a.inp('ARG', n)
    v, ex = cs.call('vsa_kyb_' + op, b, x, n)
    c.use(a.eng)
    if n != need:
        refused(c, nm, cs, v, ex, l, 'an argument of the wrong size', True)
        return
    c.true('accepts-right-size', nm, v is not None and not ex, 'refused: %s' % ex, l)
    want = {'pk': inb('ARG', n)} if op == 'enc' else {'ct': inb('ARG', n), 'sk': inb('SK', k['ksk'])}
    handed(c, 'buffer-size', nm, cs, l, 'crypto_kem_' + op, want)


def xmss_seeds(c, thorough):
    from .keys import make, P4, CLS
    prog = K.program()
    for fast in (True, False):
        l = L(prog, '%s::%s' % (CLS[fast], CLS[fast]))
        for n in sizes(48, False, (51, 96)):
            def one():
                log = []
                a = K.Api(prog, K.genkey_models(prog, 0, P4(), log))
                v, ex = make(a, fast, 10, n=n)
                nm = '%s(seed of %d bytes)' % (CLS[fast], n)
                if n == 48:
                    c.true('accepts-right-size', nm, v is not None and not ex, 'refused: %s' % ex, l)
                else:
                    c.true('refuses-wrong-size', nm, v is None and bool(ex) and not log, 'a seed of the wrong size reaches key generation', l)
            c.section('refuses-wrong-size', '%s seed %d' % (CLS[fast], n), one)


def js_xmss_program():
    return PR.load(['jsxmss', 'text', 'xmss', 'qrl', 'shasha'], need=False)


def js_seeds(c):
    """the JavaScript constructors from text: an extended seed of any other size is refused"""
    prog = js_xmss_program()
    from .keys import P4
    for n in (0, 1, 3, 47, 48, 50, 51, 52, 54, 60, 102):
        def one():
            log = []
            m = dict(X.opaque(prog, K.ALL))
            m.update(K.genkey_models(prog, 0, P4(), log))
            a = TX.Api(prog, models=m)
            raw = bytes([0, 5, 0] + [7] * 200)[:n]
            t = a.text(raw.hex().encode())
            v, ex = a.call('vsa_js_hex', t, 2 * n)
            nm = 'Xmss.fromHexSeed(%d bytes)' % n
            l = L(prog, 'Xmss::XmssWrapper::fromHexSeed')
            c.use(a.eng)
            if n == 51:
                c.true('accepts-right-size', nm, v is not None and not ex, 'refused: %s' % ex, l)
            else:
                c.true('refuses-wrong-size', nm, v is None and bool(ex) and not log, 'an extended seed of the wrong size reaches key generation', l)
        c.section('refuses-wrong-size', 'Xmss.fromHexSeed %d' % n, one)


@check('C22', 'other', 'abstract interpretation of LLVM IR of the wrappers, the reference code replaced by its buffer contract (refusal and extent obligations)',
       'Every wrapper operation is interpreted with abstract contents for an enumerated set of argument sizes: a size other than the documented '
       'one must end in an exception (or a false result) with no call into the reference implementation; for the documented size every '
       'pointer handed over must have the documented extent and the given contents.')
def c22(c):
    prog = program()
    k = c.section('buffer-size', 'sizes', consts, prog)
    if k is None:
        return
    ext = tuple(k.values())
    th = c.thorough
    S0 = 'refuses-wrong-size'
    for n in sizes(k['dpk'], th, ext):
        c.section(S0, 'Dilithium pk %d' % n, dil_ctor, c, prog, k, n, k['dsk'])
        c.section(S0, 'sign_open pk %d' % n, dil_open, c, prog, k, k['dsig'] + 10, n)
    for n in sizes(k['dsk'], th, ext):
        c.section(S0, 'Dilithium sk %d' % n, dil_ctor, c, prog, k, k['dpk'], n)
    for p, s in ((k['dsk'], k['dpk']), (0, 0), (k['dpk'] - 1, k['dsk'] + 1), (k['dpk'] + 1, k['dsk'] - 1)):
        c.section(S0, 'Dilithium pk %d sk %d' % (p, s), dil_ctor, c, prog, k, p, s)
        c.section(S0, 'Kyber pk %d sk %d' % (p, s), kyb_ctor, c, prog, k, p, s)
    for n in (0, 1, k['dsig'] - 1, k['dsig'], k['dsig'] + 1, k['dsig'] + 1000):
        c.section('buffer-size', 'sign_open of %d' % n, dil_open, c, prog, k, n, k['dpk'])
        c.section('buffer-size', 'sign_open of %d' % n, dil_open, c, prog, k, n, k['dpk'], 3)
    c.section('buffer-size', 'Dilithium()', dil_gen, c, prog, k)
    for n in sizes(k['dsig'], th, ext):
        if n < k['dsig']:
            for w in ('msg', 'sig'):
                c.section(S0, 'extract %d' % n, dil_extract, c, prog, k, n, w)
    for n in sizes(k['kpk'], th, ext):
        c.section(S0, 'Kyber pk %d' % n, kyb_ctor, c, prog, k, n, k['ksk'])
        c.section(S0, 'kem_encode %d' % n, kyb_op, c, prog, k, 'enc', n)
    for n in sizes(k['ksk'], th, ext):
        c.section(S0, 'Kyber sk %d' % n, kyb_ctor, c, prog, k, k['kpk'], n)
    for n in sizes(k['kct'], th, ext):
        c.section(S0, 'kem_decode %d' % n, kyb_op, c, prog, k, 'dec', n)
    for op, n in (('enc', k['kpk']), ('dec', k['kct']), ('enc', k['kct']), ('dec', k['kpk'])):
        for first in ('enc', 'dec'):
            c.section(S0, '%s after %s' % (op, first), kyb_op, c, prog, k, op, n, first)
    c.section('buffer-size', 'Kyber()', kyb_gen, c, prog, k)
    c.section(S0, 'XMSS seeds', xmss_seeds, c, th)
    c.section(S0, 'JavaScript seeds', js_seeds, c)
    c.assumptions += ['sizes enumerated: boundaries of every documented size%s' % (' and every size up to it' if th else ''),
                      'constants and prototypes of the reference implementations as in stubs/include (their sources are not in the repository)']


# ------------------------------------------------------------------ C23
def outcome(c, nm, v, ret, l):
    """a boolean result that must be true exactly for ret == 0"""
    if v is None:
        c.bad('result-decides', nm, 'always raises', l)
        return
    w = T.eq(ret, 0, 32)
    c.equal('result-decides', nm, v if not isinstance(v, S) or v.w == 1 else T.extract(v, v.w, 0, 1), w, 1, l)
    if isinstance(v, S) and v.w > 1:
        c.equal('result-decides', nm + ' (all bits)', v, T.zext(w, 1, v.w), v.w, l)


def cxx_results(c, prog, k):
    for n in (k['dsig'], k['dsig'] + 1, k['dsig'] + 40):
        def opn():
            cs = Case(prog, k)
            a = cs.a
            v, ex = cs.call('vsa_dil_open', a.inp('SM', n), n, a.inp('PK', k['dpk']), k['dpk'], 0, a.out(n + 16), a.out(8))
            outcome(c, 'Dilithium::sign_open of %d bytes' % n, v, T.var('OPENRET', 32), L(prog, 'Dilithium::sign_open'))
            c.use(a.eng)
        c.section('result-decides', 'sign_open', opn)
    for op, need, r in (('enc', k['kpk'], 'ENCRET'), ('dec', k['kct'], 'DECRET')):
        for first in (None, 'enc', 'dec'):
            def one():
                cs = Case(prog, k)
                a = cs.a
                b = kyb_new(cs, k)
                if first:
                    cs.lib.ret = 0
                    cs.call('vsa_kyb_' + first, b, a.inp('FIRST', k['kpk'] if first == 'enc' else k['kct']), k['kpk'] if first == 'enc' else k['kct'])
                    cs.lib.ret = None
                v, ex = cs.call('vsa_kyb_' + op, b, a.inp('ARG', need), need)
                f = 'Kyber::kem_%scode' % ('en' if op == 'enc' else 'de')
                nm = f + (' after %s' % first if first else '')
                l = L(prog, f)
                outcome(c, nm, v, T.var(r, 32), l)
                if v is None:
                    return
                o = a.out(8192)
                n = cs.ready('vsa_kyb_key', b, o)
                c.equal('shared-secret', nm + ': key size', n, k['kss'], 64, l)
                if n == k['kss']:
                    # on success the key is the one the reference code produced
                    c.equal('shared-secret', nm + ': key is the one produced', a.mem(o, 0, n), inb('SS', n), 8 * n, l,
                            assume=(T.eq(T.var(r, 32), 0, 32),))
                if op == 'enc':
                    n = cs.ready('vsa_kyb_ct', b, o)
                    c.equal('shared-secret', nm + ': ciphertext size', n, k['kct'], 64, l)
                    if n == k['kct']:
                        c.equal('shared-secret', nm + ': ciphertext is the one produced', a.mem(o, 0, n), inb('CT', n), 8 * n, l,
                                assume=(T.eq(T.var(r, 32), 0, 32),))
                c.use(a.eng)
            c.section('result-decides', '%s after %s' % (op, first), one)


def kyb_history(c, prog, k, ops):
    """after each operation of a sequence the object holds what that operation produced"""
    cs = Case(prog, k, 0)
    a = cs.a
    b = kyb_new(cs, k)
    cur = {}

    def m(op):
        def f(eng, fr, ins, args, st):
            n = cur['n']
            if op == 'enc':
                cs.lib.fill(eng, st, args[0], 'CT.%d' % n, k['kct'])
            cs.lib.fill(eng, st, args[1 if op == 'enc' else 0], 'SS.%d' % n, k['kss'])
            return cur['ret']
        return f
    a.eng.models['crypto_kem_enc'], a.eng.models['crypto_kem_dec'] = m('enc'), m('dec')
    ct = None
    for n, (op, ret) in enumerate(ops):
        need = k['kpk'] if op == 'enc' else k['kct']
        cur.update(n=n, ret=ret)
        f = 'Kyber::kem_%scode' % ('en' if op == 'enc' else 'de')
        l = L(prog, f)
        nm = '%s as operation %d of %s' % (f, n + 1, ', '.join('%s%s' % (x, '' if r == 0 else ' failing') for x, r in ops))
        v, ex = a.call('vsa_kyb_' + op, b, a.inp('ARG%d' % n, need), need)
        if v is None:
            c.true('result-decides', nm, ret != 0 and bool(ex), 'raises although the operation succeeds', l)
            continue
        c.equal('result-decides', nm, v if isinstance(v, int) else T.extract(v, v.w, 0, 1), int(ret == 0), 1, l)
        o = a.out(8192)
        if ret == 0:
            if op == 'enc':
                ct = n
            if c.equal('shared-secret', nm + ': key size', cs.ready('vsa_kyb_key', b, o), k['kss'], 64, l):
                c.equal('shared-secret', nm + ': key is the one produced', a.mem(o, 0, k['kss']), inb('SS.%d' % n, k['kss']), 8 * k['kss'], l)
        if ct is not None and (op == 'dec' or ret == 0):
            if c.equal('shared-secret', nm + ': ciphertext size', cs.ready('vsa_kyb_ct', b, o), k['kct'], 64, l):
                c.equal('shared-secret', nm + ': ciphertext is the one last produced', a.mem(o, 0, k['kct']), inb('CT.%d' % ct, k['kct']), 8 * k['kct'], l)
    c.use(a.eng)


def js_pq_program():
    return PR.load(['jspq', 'text', 'pqdrv'], need=False)


def js_results(c, k):
    prog = js_pq_program()
    l = L(prog, '(anonymous namespace)::DilithiumWrapper::sign_open')
    n = k['dsig'] + 4

    def opn(ret, concrete=None, n=n):
        cs = Case(prog, k, ret, base=TX.Api)
        cs.lib.concrete = concrete
        a = cs.a
        sm, pk = bytes(i & 255 for i in range(n)).hex().encode(), bytes(k['dpk']).hex().encode()
        o = a.out(4 * n)
        v, ex = cs.call('vsa_js_open', a.text(b''), 0, a.text(sm), len(sm), a.text(pk), len(pk), o)
        c.use(a.eng)
        if not cs.lib.calls:
            raise Undecided('the reference verification is not reached')
        return v, ex, (a.mem(o, 0, v) if isinstance(v, int) and v else None)

    def dropped():
        for n1, name, pat in ((n, 'with zero bytes', lambda n: bytes((i % 7) * 40 for i in range(n))), (n, 'of zeros', bytes), (n, 'of 0xff bytes', lambda n: bytes([255]) * n),
                              (k['dsig'], 'of an empty message', lambda n: bytes(i & 255 for i in range(n))), (k['dsig'] + 5000, 'of a long message', lambda n: bytes(i % 251 for i in range(n)))):
            v, ex, m = opn(0, pat, n1)
            want = pat(n1).hex().encode()
            if c.true('result-decides', 'JS Dilithium.sign_open returns all of an output %s' % name, v is not None and not ex, 'raises %s' % ex, l) and \
                    c.equal('result-decides', 'JS Dilithium.sign_open output %s: length' % name, v, len(want), 64, l):
                c.equal('result-decides', 'JS Dilithium.sign_open output %s' % name, m, int.from_bytes(want, 'little'), 8 * v, l)
        good = opn(0)
        c.true('result-decides', 'JS Dilithium.sign_open returns a verified message', good[0] is not None and not good[1], 'raises %s' % good[1], l)
        if good[0] is None:
            return
        for r in (T.mask(32), 1, 2, 0x80000000):
            bad = opn(r)
            if bad[0] is None and bad[1]:
                c.ok('result-decides', 'JS Dilithium.sign_open with failure code %d' % T.tosigned(r, 32), 'raises', l)
                continue
            c.true('result-decides', 'JS Dilithium.sign_open with failure code %d' % T.tosigned(r, 32), bad[0] != good[0] or bad[2] != good[2],
                   'the caller gets the same result as for a verified message', l)
            c.true('result-decides', 'JS Dilithium.sign_open with failure code %d hands out no message' % T.tosigned(r, 32), bad[0] is not None and bad[0] < good[0],
                   'a message of %r characters is returned' % (bad[0],), l)
    c.section('result-decides', 'JS sign_open', dropped)

    def kem(op, need):
        for ret in (0, 1, T.mask(32)):
            cs = Case(prog, k, 0, base=TX.Api)
            a = cs.a
            hx = lambda z: (a.text(bytes(z).hex().encode()), 2 * z)
            b = cs.ready('vsa_js_kyb_keys', *(hx(k['kpk']) + hx(k['ksk'])))
            cs.lib.ret = ret
            v, ex = cs.call('vsa_js_' + op, b, *hx(need))
            lk = L(prog, '(anonymous namespace)::KyberWrapper::kem_%scode' % ('en' if op == 'enc' else 'de'))
            c.equal('result-decides', 'JS Kyber.kem_%scode with result %d' % ('en' if op == 'enc' else 'de', T.tosigned(ret, 32)),
                    v if v is not None else 99, int(ret == 0), 32, lk)
            c.use(a.eng)
    c.section('result-decides', 'JS kem_encode', kem, 'enc', k['kpk'])
    c.section('result-decides', 'JS kem_decode', kem, 'dec', k['kct'])


def m_verifysig(log, name='CORERET'):
    def m(eng, fr, ins, a, st):
        log.append(a)
        return T.var(name, 32)
    return m


def xmss_results(c):
    """verify in the class and in the JavaScript classes is exactly the core verdict"""
    prog = js_xmss_program()
    for drv, w, f in (('vsa_js_verify', None, 'Xmss::XmssWrapper::verify'), ('vsa_js_bverify', 16, 'Xmss::XmssBasicWrapper::verify'),
                      ('vsa_js_bverify', 4, 'Xmss::XmssBasicWrapper::verify')):
        def one():
            log = []
            m = dict(X.opaque(prog, K.ALL))
            m['xmss_Verifysig'] = m_verifysig(log)
            a = K.Api(prog, m)
            h = 10
            ln = X.wots_len(w or 16)[3]
            n = 4 + 32 + 32 * ln + 32 * h
            p = a.inp('PK', 67)
            a.st.mem[p.obj].write(0, 3, 1 | (h >> 1) << 8)
            v, ex = a.call(drv, *([a.inp('MSG', 9), 9, a.inp('SIG', n), n, p, 67] + ([w] if w else [])))
            c.use(a.eng)
            nm = '%s%s' % (f.replace('Xmss::', 'JS '), ' w=%d' % w if w else '')
            if len(log) != 1:
                c.bad('result-decides', nm, 'the core verification runs %d times' % len(log), L(prog, f))
                return
            outcome(c, nm, v, T.var('CORERET', 32), L(prog, f))
            bts = lambda q, z: a.eng.bytes_of(a.st, q, z)
            c.equal('verified-what-was-given', nm + ': message', bts(log[0][2], 9), inb('MSG', 9), 72, L(prog, f))
            c.equal('verified-what-was-given', nm + ': signature', bts(log[0][4], n), inb('SIG', n), 8 * n, L(prog, f))
            c.equal('verified-what-was-given', nm + ': key', bts(log[0][5], 64), T.seqbytes(T.seq('PK'), 3, 64), 512, L(prog, f))
            c.equal('verified-what-was-given', nm + ': height', log[0][6], h, 32, L(prog, f))
        c.section('result-decides', f, one)
    # the class itself
    pk = K.program()
    for w in (16, 4):
        def cls():
            log = []
            a = K.Api(pk, {'xmss_Verifysig': m_verifysig(log)})
            h = 10
            n = 4 + 32 + 32 * X.wots_len(w)[3] + 32 * h
            p = a.inp('PK', 67)
            a.st.mem[p.obj].write(0, 3, 1 | (h >> 1) << 8)
            v, ex = a.call('vsa_verify', a.inp('MSG', 9), 9, a.inp('SIG', n), n, p, 67, w)
            c.use(a.eng)
            outcome(c, 'XmssBase::verify w=%d' % w, v, T.var('CORERET', 32), L(pk, 'XmssBase::verify'))
        c.section('result-decides', 'XmssBase::verify', cls)


def js_addresses(c):
    """the JavaScript address validity is the library's"""
    prog = js_xmss_program()
    l = L(prog, 'Xmss::_validateAddress')

    def one(raw):
        res = []
        for r in (0, 1):
            seen = []

            def m(eng, fr, ins, a, st):
                seen.append(1)
                return r
            mm = dict(X.opaque(prog, K.ALL))
            mm['QRLHelper::addressIsValid'] = m
            a = TX.Api(prog, models=mm)
            t = b'Q' + raw.hex().encode()
            v, ex = a.call('vsa_js_valid', a.text(t), len(t))
            c.use(a.eng)
            res.append((v, bool(seen)))
            c.equal('result-decides', 'JS validateAddress of %d bytes when validity is %d' % (len(raw), r), v if v is not None else 99, r, 1, l)
            a = TX.Api(prog, models=mm)
            v, ex = a.call('vsa_js_validraw', a.inp('ADDR', len(raw)), len(raw))
            c.equal('result-decides', 'JS validateAddressRaw of %d bytes when validity is %d' % (len(raw), r), v if v is not None else 99, r, 1, l)
    for n in (39, 40):
        c.section('result-decides', 'JS validateAddress', one, bytes(range(n)))


@check('C23', 'proof', 'abstract interpretation of LLVM IR of every wrapper with the underlying verdict abstract (the result term must be that verdict)',
       'Each wrapper (C++ classes and JavaScript bindings) is interpreted with the status of the underlying verification or '
       'decapsulation as an abstract 32-bit value: the boolean handed to the caller must be the term "status == 0"; a binding that returns '
       'data instead must return none of it when the status is a failure.')
def c23(c):
    prog = program()
    k = c.section('result-decides', 'sizes', consts, prog)
    if k is None:
        return
    cxx_results(c, prog, k)
    seqs = [[(x, 0), (y, 0)] for x in ('enc', 'dec') for y in ('enc', 'dec')] + [[(x, 0), (y, 1), (x, 0)] for x in ('enc', 'dec') for y in ('enc', 'dec')] + \
        [[(x, 1), (y, 0)] for x in ('enc', 'dec') for y in ('enc', 'dec')] + [[('enc', 0), ('dec', 0), ('dec', 0), ('enc', 0), ('dec', 0)]]
    if c.thorough:
        import itertools
        seqs += [list(x) for x in itertools.product([(o, r) for o in ('enc', 'dec') for r in (0, 1)], repeat=4)]
    for ops in seqs:
        c.section('shared-secret', 'sequence %s' % ops, kyb_history, c, prog, k, ops)
    js_results(c, k)
    xmss_results(c)
    c.section('result-decides', 'JS addresses', js_addresses, c)


# ------------------------------------------------------------------ C28
@check('C28', 'other', 'abstract interpretation of LLVM IR (C++ and JavaScript binding) to canonical value terms for enumerated lengths',
       'extract_signature and extract_message are interpreted over abstract bytes for lengths around the signature size: together they '
       'must return exactly the first CRYPTO_BYTES bytes and exactly the rest, also through the JavaScript binding.')
def c28(c):
    prog = program()
    k = c.section('splits', 'sizes', consts, prog)
    if k is None:
        return
    b = k['dsig']
    ns = {b, b + 1, b + 2, b + 14, b + 31, b + 32, b + 33, b + 100, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, b + k['dpk'], b + k['dsk'], b + 4097, b + 65536, b + 70001}
    if c.thorough:
        ns |= set(range(b, 2 * b + 200))
    for n in sorted(ns):
        for w in ('msg', 'sig'):
            c.section('splits', 'extract %d' % n, dil_extract, c, prog, k, n, w)
    jp = js_pq_program()
    l = L(jp, '(anonymous namespace)::DilithiumWrapper::extract_message')
    for n in (b, b + 1, b + 20, b + 100, b + 2049, b + 4097, b + 9000):
        def one():
            cs = Case(jp, k, base=TX.Api)
            a = cs.a
            raw = bytes((7 * i + 3) & 255 for i in range(n))
            t = raw.hex().encode()
            o = a.out(4 * n)
            v, ex = cs.call('vsa_js_extract', a.text(t), len(t), o)
            c.use(a.eng)
            nm = 'JS Dilithium.extract_message of %d bytes' % n
            want = raw[b:].hex().encode()
            if v is None or ex:
                c.bad('splits', nm, 'raises %s' % [excname(e) for e in ex], l)
                return
            if c.equal('splits', nm + ': size', v, len(want), 64, l) and want:
                c.equal('splits', nm, a.mem(o, 0, v), int.from_bytes(want, 'little'), 8 * v, l)
        c.section('splits', 'JS extract %d' % n, one)
    c.assumptions += ['lengths enumerated around multiples of the signature size%s' % (' and every length up to twice it' if c.thorough else '')]
