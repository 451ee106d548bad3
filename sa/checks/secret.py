"""C26: secret key material leaves the signer only through the hash functions."""
from .. import terms as T, program as PR, spec as SP, xmss as X, klass as K, rand as R
from ..core import check
from ..interp import Engine, State, Ptr, atom_refs
from ..rand import Valuation, CantEval, prf, mask
from ..terms import S
from .hashes import loc
from .wots import HFV, setup
from .verify import inb, keygen
from . import sign as SG


class Secret:
    """what is secret: input sequences, ranges of the output of a hash (the expanded seed), and - for the one-time
    keys - results of given functions.  Any other function or hash result hides its arguments."""

    def __init__(self, streams=(), hashes=(), funs=()):
        self.streams = set(streams)
        self.hashes = {a.id: (lo, hi) for a, lo, hi in hashes}      # bit range
        self.funs = funs             # predicate on 'fun' atoms

    def isfun(self, a):
        return bool(self.funs) and self.funs(a)

    def reaches(self, v):
        """does the value syntactically depend on the secret outside hash arguments?"""
        seen = set()

        def sl(aid, lo, n):
            a = T.ATOMS[aid]
            if a.kind == 'in':
                return a.args in self.streams
            if aid in self.hashes:
                s, e = self.hashes[aid]
                return lo < e and lo + n > s
            if a.kind == 'fun':
                return self.isfun(a)
            if a.kind == 'hash':
                return False
            if aid in seen:
                return False
            seen.add(aid)
            return any(sl(r, 0, 1 << 30) for r in atom_refs(aid))
        return isinstance(v, S) and any(sl(i, l, p[0]) for p in v.ps for i, l in p[2])


class Flow(Valuation):
    """every hash and function result is a free variable, shared by all secrets"""

    def __init__(self, seed, secret, salt=0, consts=()):
        Valuation.__init__(self, seed)
        self.sec, self.salt = secret, salt
        self.pins = {}
        self.consts = consts

    def other(self):
        o = Flow(self.seed, self.sec, 1, self.consts)
        o.over, o.pins, o.iv = self.over, self.pins, self.iv
        return o

    def with_iv(self, key, i):
        c = Flow(self.seed, self.sec, self.salt, self.consts)
        c.over, c.pins, c.streams = self.over, self.pins, self.streams
        c.iv = dict(self.iv)
        c.iv[key[2][0][0]] = i
        return c

    def stream(self, name, off, n):
        if name in self.sec.streams and self.salt:
            b = Valuation(self.seed ^ 0x5EC2E7).stream(name, off, n)
            return b
        return Valuation.stream(self, name, off, n)

    def input(self, a):
        if a.args in self.sec.streams and self.salt:
            return Valuation(self.seed ^ 0x5EC2E7).input(a)
        return Valuation.input(self, a)

    def orc(self, a, off, n, salt):
        out = b''
        i = off // 32
        while len(out) < n + off % 32:
            out += prf(self.seed, 'free', a.id, i, salt)
            i += 1
        return out[off % 32:off % 32 + n]

    def hashout(self, a, off, n):
        b = bytearray(self.orc(a, off, n, 0))
        r = self.sec.hashes.get(a.id)
        if r and self.salt:
            s = self.orc(a, off, n, 1)
            for i in range(n):
                if r[0] <= 8 * (off + i) < r[1]:
                    b[i] = s[i]
        for lo, k, v in self.pins.get(a.id, ()):
            for i in range(k):
                x = lo + i - 8 * off
                if 0 <= x < 8 * n:
                    b[x // 8] = b[x // 8] & ~(1 << x % 8) | (v >> i & 1) << x % 8
        return bytes(b)

    def _atom(self, a):
        if a.kind == 'fun':
            if a.args[0] == 'CHAIN' and self.val(a.args[4]) == 0:
                return self.val(a.args[2])          # a chain of no steps is its head
            v = int.from_bytes(self.orc(a, 0, (a.w + 7) // 8, self.salt if self.sec.isfun(a) else 0), 'little') & mask(a.w)
            for lo, n, x in self.pins.get(a.id, ()):
                v = v & ~(mask(n) << lo) | x << lo
            return v
        return Valuation._atom(self, a)

    def force(self, a, lo, n, v):
        if a.kind == 'fun' and self.sec.isfun(a) or a.id in self.sec.hashes or a.kind == 'in' and a.args in self.sec.streams:
            return False
        if a.kind in ('fun', 'hash'):
            self.pins.setdefault(a.id, []).append((lo, n, v))
            self.memo.clear()
            return True
        return Valuation.force(self, a, lo, n, v)


def flows(v, sec, rounds=40, seed0=1, allowed=None):
    """a pair of valuations that agree on everything but the secret and give v two different values (other than the
    allowed ones)"""
    bools, consts = R.reach_atoms([v])
    for r in range(rounds):
        f = Flow(seed0 * 1000 + r, sec, 0, consts)
        try:
            if bools and r % 3:
                k = int.from_bytes(prf(f.seed, 'pick')[:8], 'little')
                for i in range(1 + k % 3):
                    f.enforce(bools[(k >> (8 + 13 * i)) % len(bools)], int((k >> (60 - i)) & 3 != 0))
            g = f.other()
            x, y = f.val(v), g.val(v)
        except CantEval:
            continue
        if x != y and (allowed is None or x != f.val(allowed) or y != g.val(allowed)):
            return x ^ y
    return None


def opaque_to(c, rule, nm, v, sec, w, l, allowed=None):
    """obligation: v depends on the secret through hash results only"""
    if not isinstance(v, (int, S)):
        c.und(rule, nm, 'value not determined: %r' % (v,), l)
        return
    if not sec.reaches(v) or allowed is not None and v == allowed:
        c.ok(rule, nm, '', l)
        return
    d = flows(v, sec, seed0=c.seed, allowed=allowed)
    if d is None:
        c.und(rule, nm, 'may depend on the secret outside a hash evaluation', l)
        return
    b = ((d & -d).bit_length() - 1) // 8
    n = min(8, w // 8 - b)
    c.bad(rule, nm, 'byte %d depends on the secret other than through a hash evaluation: %s' % (b, T.show(T.extract(v, w, 8 * b, 8 * n))[:500]), l)


def opaque_bytes(c, rule, nm, mem, size, sec, l, step=32):
    for o in range(0, size, step):
        n = min(step, size - o)
        try:
            v = mem.read(o, n)
        except T.Undecided as e:
            c.und(rule, '%s bytes %d..%d' % (nm, o, o + n - 1), str(e), l)
            continue
        opaque_to(c, rule, '%s bytes %d..%d' % (nm, o, o + n - 1), v, sec, 8 * n, l)


def outputs(c, nm, eng, sec, l):
    """nothing handed to an output function or put in an exception text is secret"""
    n = 0
    for what, where, vals in eng.outputs:
        for v in vals:
            n += 1
            w = v.w if isinstance(v, S) else 64
            opaque_to(c, 'output', '%s: what is passed to %s at %s' % (nm, what, where), v, sec, w, l)
    c.ok('output', '%s: %d values in %d output calls and exception texts' % (nm, n, len(eng.outputs)), '', l)


def expanded(name='SEED'):
    a = SP.xof('shake256', SP.rope(SP.B(inb(name, 48), 48)))
    return Secret([name, 'SKSEED', 'SKPRF'], [(a, 0, 512)])


RAW = lambda: Secret(['SKSEED', 'SKPRF', 'SEED'])


# ------------------------------------------------------------------ core
def core_sign(c, prog, fast, h, idxv=None, w=16):
    f = SG.signer(prog, fast)
    l = loc(f)
    hf = HFV()
    ln = X.wots_len(w)[3]
    eng = Engine(prog, X.opaque(prog, SG.ALL))
    st = State()
    p, st = X.xmss_params(prog, eng, st, h, w)
    idx = T.var('IDX@%d' % h, 32, hi=(1 << h) - 1) if idxv is None else idxv
    sk = eng.new_obj(st, 'sk', 132)
    st.mem[sk].write(0, 132, SG.sk_spec(idx, *[inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]))
    state = None
    if fast:
        B, st = SG.bds_state(prog, eng, st, h)
        state = B['state']
        for nm in ('auth', 'keep', 'retain', 'nodes'):
            st.mem[B[nm]].write(0, B[nm].size, inb(nm.upper(), B[nm].size))
        X.th_reset(st, B, h)

    def hook(eng, fr, ins, f, args, st):
        if f is not None and getattr(f, 'name', None) and f.internal:
            b = prog.base(f.name)
            if b in SG.SKIP:
                if b == 'compute_authpath_wots':
                    eng.copy_in(st, args[2], [('v', 32 * h, inb('PATH', 32 * h))])
                    eng.copy_in(st, args[1], [('v', 32, inb('ROOT2', 32))])
                return (0, st)
        return None
    if idxv is None or not fast and h > 4:
        eng.callhook = hook
    mlen = T.var('mlen', 64, hi=(1 << 40) - 1)
    f, sig, msg, r = SG.run_sign(eng, prog, fast, st, hf, p, sk, state, h, ln, mlen)
    c.use(eng)
    nm = '%s h=%d %s' % (SG.NAMES[fast], h, 'any index' if idxv is None else 'index 0x%x' % idxv)
    if r is None:
        c.und('signature', nm, 'never returns')
        return
    ret, st = r
    sec = RAW()
    opaque_bytes(c, 'signature', nm + ': signature', st.mem[sig], 4 + 32 + 32 * ln + 32 * h, sec, l)
    opaque_to(c, 'signature', nm + ': returned value', ret, sec, 32, l)
    if fast:
        for x in ('auth', 'keep', 'stack', 'nodes', 'retain'):
            if not isinstance(idxv, int):
                break
            for o in range(0, B[x].size, 32):
                v = st.mem[B[x]].read(o, 32)
                if isinstance(v, (int, S)):
                    opaque_to(c, 'traversal-state', '%s: %s bytes %d..%d' % (nm, x, o, o + 31), v, sec, 256, l)
    outputs(c, nm, eng, sec, l)


def core_keygen(c, prog, fast, h):
    k = keygen(c, prog, fast, h)
    l = loc(k['f'])
    nm = '%s h=%d' % (prog.base(k['f'].name), h)
    sec = expanded()
    opaque_bytes(c, 'public-key', nm + ': public key', k['st'].mem[k['pk']], 64, sec, l)
    opaque_to(c, 'public-key', nm + ': returned value', k['ret'], sec, 32, l)
    outputs(c, nm, k['eng'], sec, l)
    if fast:
        for x in ('auth', 'keep', 'stack', 'nodes', 'retain'):
            o = k['bds'][x]
            for i in range(0, o.size, 32):
                v = k['st'].mem[o].read(i, 32)
                if isinstance(v, (int, S)):
                    opaque_to(c, 'traversal-state', '%s: %s bytes %d..%d' % (nm, x, i, i + 31), v, sec, 256, l)


# ------------------------------------------------------------------ one-time keys
def one_time(c, prog, name, w):
    """the secret heads of the chains leave only through the chain of the digit"""
    f = prog.find(name)
    if f is None or X.sig_of(f) != X.SIGS[name][1]:
        c.und('one-time-key', name, 'not found with its documented parameters')
        return
    l = loc(f)
    ln = X.wots_len(w)[3]
    hf = HFV()
    eng, st, wp = setup(c, prog, w, X.opaque(prog, X.HASHES + ('gen_chain',)))
    from .hashes import adrs_in
    pub = eng.input_obj(st, 'PUB', 32)
    a, adrs = adrs_in(eng, st)
    sk = eng.input_obj(st, 'SK', 32)
    m = eng.input_obj(st, 'DIGEST', 32)
    out = eng.new_obj(st, 'out', 32 * ln)
    args = [hf, Ptr(out), Ptr(sk), Ptr(wp), Ptr(pub), Ptr(a)] if name == 'wots_pkgen' else \
        [hf, Ptr(out), Ptr(m), Ptr(sk), Ptr(wp), Ptr(pub), Ptr(a)]
    r = eng.call(f, args, st)
    c.use(eng)
    skv = inb('SK', 32)
    sec = Secret(['SK'], (), lambda x: x.args[0] == 'PRF' and x.args[3] == skv)
    nm = '%s w=%d' % (name, w)
    ds = X.digits(inb('DIGEST', 32), w) if name == 'wots_sign' else [w - 1] * ln
    for i in range(ln):
        aw = list(adrs.w)
        aw[5] = i
        ex = X.CHAIN(hf, X.PRF(hf, SP.tobyte(i, 32, 32), skv), 0, ds[i], inb('PUB', 32), aw)
        opaque_to(c, 'one-time-key', '%s: element %d' % (nm, i), r[1].mem[out].read(32 * i, 32), sec, 256, l, ex)
    opaque_bytes(c, 'one-time-key', nm + ': address', r[1].mem[a], 20, sec, l, 4)
    outputs(c, nm, eng, sec, l)


# ------------------------------------------------------------------ classes
def class_public(c, fast, h):
    """what the classes hand out about a key with an abstract secret"""
    from .keys import make, CLS, P4, sigfn
    prog = K.program()
    a = K.Api(prog, K.genkey_models(prog, T.var('IDX@s%d' % h, 32, hi=(1 << h) - 1), P4()))
    l = sigfn(a, fast)
    b, ex = make(a, fast, h)
    if b is None:
        raise T.Undecided('construction refused')
    sec = RAW()
    nm = '%s h=%d ' % (CLS[fast], h)
    for f, dr, n in (('getPK', 'vsa_pk', 67), ('getRoot', 'vsa_root', 32), ('getPKSeed', 'vsa_pkseed', 32), ('getAddress', 'vsa_address', 39),
                     ('getDescriptorBytes', 'vsa_descbytes', 3)):
        def one(f, dr, n):
            o = a.out(4096)
            v, exc = a.call(dr, b, o)
            if v is None or not isinstance(v, int):
                c.und('public-accessor', nm + f, 'raises or returns %s bytes' % (v,), l)
                return
            opaque_bytes(c, 'public-accessor', nm + f, a.st.mem[o.obj], v, sec, l)
        c.section('public-accessor', nm + f, one, f, dr, n)
    for f, dr in (('getIndex', 'vsa_index'), ('getHeight', 'vsa_height'), ('getNumberSignatures', 'vsa_nsig'), ('getRemainingSignatures', 'vsa_remaining')):
        c.section('public-accessor', nm + f, lambda: opaque_to(c, 'public-accessor', nm + f, a.value(dr, b), sec, 32, l))
    outputs(c, nm, a.eng, sec, l)
    c.use(a.eng)


def class_sign(c, fast, h):
    from .keys import make, CLS, sigfn
    a = K.Api()
    l = sigfn(a, fast)
    b, ex = make(a, fast, h)
    if b is None:
        raise T.Undecided('construction refused')
    sec = expanded()
    n = 4 + 32 + 67 * 32 + 32 * h
    for i in range((1 << h) + 1):
        nm = '%s h=%d index %d' % (CLS[fast], h, i)
        m = a.inp('MSG', 40)
        o = a.out(n)
        st0 = a.st
        v, ex = a.call('vsa_sign', b, m, 40, o)
        if v is None:
            a.st = st0
        else:
            opaque_bytes(c, 'signature', nm + ': signature', a.st.mem[o.obj], n, sec, l, 256)
    o = a.out(67)
    v, ex = a.call('vsa_pk', b, o)
    if v == 67:
        opaque_bytes(c, 'public-key', '%s h=%d: getPK' % (CLS[fast], h), a.st.mem[o.obj], 67, sec, l)
    if fast:
        for t in (0, 1 << h, (1 << 32) - 1):
            st0 = a.st
            a.call('vsa_set_index', b, t)
            a.st = st0
    outputs(c, '%s h=%d' % (CLS[fast], h), a.eng, sec, l)
    c.use(a.eng)


def guarded(c, nm, f, *a, **kw):
    """run f; what it put out before the analysis gave up is still looked at"""
    try:
        f(*a, **kw)
    except T.Undecided as e:
        c.und('output', nm, 'analysis gave up: %s' % e)


def refusals(c):
    """texts of the exceptions raised by refused constructions"""
    from .keys import make, CLS, sigfn
    prog = K.program()
    n = 0
    for fast in (True, False):
        for nm, kw in (('height 3', dict(h=3)), ('height 0', dict(h=0)), ('height 32', dict(h=32)), ('hash function 7', dict(h=10, hf=7)),
                       ('47-byte seed', dict(h=10, n=47)), ('49-byte seed', dict(h=10, n=49)), ('no seed', dict(h=10, n=0))) + \
                ((('Winternitz parameter 3', dict(h=10, w=3)),) if not fast else ()):
            a = K.Api(prog, K.genkey_models(prog, 0, [inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]))

            def one():
                guarded(c, nm, make, a, fast, **kw)
                outputs(c, '%s: refused %s' % (CLS[fast], nm), a.eng, RAW(), sigfn(a, fast))
            c.section('output', '%s: refused %s' % (CLS[fast], nm), one)
    for n in (0, 50, 52):
        a = K.Api(prog, K.genkey_models(prog, 0, [inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]))

        def ext():
            guarded(c, 'extended seed of %d bytes' % n, a.call, 'vsa_fast_ext', a.inp('SEED', n), n)
            outputs(c, 'XmssFast: refused extended seed of %d bytes' % n, a.eng, RAW(), sigfn(a, True))
        c.section('output', 'extended seed of %d bytes' % n, ext)


@check('C26', 'proof', 'information-flow analysis: abstract interpretation of LLVM IR to value terms, dependence on secrets outside hash applications',
       'Key generation, signing (core and classes, symbolic index per height and whole small trees), the WOTS+ operations and the public '
       'accessors are interpreted with abstract secrets. No output byte, value passed to an output function or exception text may depend on '
       'the secret seeds except through the result of a hash function; WOTS+ outputs may depend on the secret chain heads only through the '
       'chaining function. Dependence is decided on the terms; a violation is confirmed by two interpretations that differ in the secret only.')
def c26(c):
    prog = PR.load(['xmss'])
    for fast in (True, False):
        for h in (4, 10, 20, 30):
            c.section('signature', '%s h=%d any index' % (SG.NAMES[fast], h), core_sign, c, prog, fast, h)
        for h in (4, 6) + ((8, 10) if c.thorough else ()):
            c.section('public-key', 'key generation h=%d fast=%s' % (h, fast), core_keygen, c, prog, fast, h)
    for i in (0, 1, 255, 256, 65535, 65536, 0x2030405, 0x3FFFFFFE):
        c.section('signature', 'index 0x%x' % i, core_sign, c, prog, True, 30, i)
    for w in (16, 4, 256, 2):
        for name in ('wots_pkgen', 'wots_sign'):
            c.section('one-time-key', '%s w=%d' % (name, w), one_time, c, prog, name, w)
    for fast in (True, False):
        for h in (4, 10, 30):
            c.section('public-accessor', '%s h=%d' % (fast, h), class_public, c, fast, h)
        c.section('signature', 'class life', class_sign, c, fast, 4)
    c.section('output', 'refusals', refusals, c)
    c.assumptions += ['hash results are one-way (the specification of the property)', 'H, PRF, WOTS+ operations taken by contract (C02, C04)',
                      'memory of the process (stack remains, the object itself) is not an output']
