"""C08: one index per signature, C11: key layouts, C25: refused parameters (class layer)."""
from .. import terms as T, program as PR, spec as SP, xmss as X, klass as K
from ..core import check
from ..interp import Ptr
from ..terms import Undecided
from .hashes import loc
from .wots import HFV
from .verify import inb, keygen
from . import sign as SG

P4 = lambda: [inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]
CLS = {True: 'XmssFast', False: 'XmssBasic'}


def make(a, fast, h, hf=None, w=16, n=48):
    s = a.inp('SEED', n)
    hf = HFV() if hf is None else hf
    if fast:
        return a.call('vsa_fast_new', s, n, h, hf, 0)
    return a.call('vsa_basic_new', s, n, h, hf, 0, w)


def sigfn(a, fast):
    f = a.prog.find(CLS[fast] + '::sign')
    return loc(f) if f else None


def message_lengths():
    """of any length, and the lengths at which code turns"""
    ml = T.var('MLEN', 64, 1, (1 << 40) - 1)
    return (ml, 0, ml, 1, 32, ml, 33, 257, 66000, *T.huge('MLENH'))


def class_life(c, fast, h):
    a = K.Api()
    b, ex = make(a, fast, h)
    l = sigfn(a, fast)
    if b is None or ex:
        c.bad('index-advances', '%s h=%d' % (CLS[fast], h), 'construction refused: %s' % ex, l)
        return
    n = 4 + 32 + 67 * 32 + 32 * h
    mls = message_lengths()
    for i in range((1 << h) + 2):
        ml = mls[i % len(mls)] if i < 1 << h else (0, mls[0])[i & 1]
        nm = '%s h=%d index %d' % (CLS[fast], h, i)
        sk0 = a.bytes('vsa_sk', 132, b)
        m = a.inp('MSG', ml)
        o = a.out(n)
        a.eng.oob.clear()
        st0 = a.st
        v, ex = a.call('vsa_sign', b, m, ml, o)
        if i < 1 << h:
            if v is None or ex:
                c.bad('index-advances', nm, 'a remaining index is refused: %s' % ex, l)
                return
            sk1 = a.bytes('vsa_sk', 132, b)
            c.equal('signs-with-held-index', nm, a.mem(o, 0, 4), SP.be(i, 32, 4), 32, l)
            c.equal('index-advances', nm, T.extract(sk1, 8 * 132, 0, 32), SP.be(i + 1, 32, 4), 32, l)
            c.equal('key-frame', nm + ': rest of the key unchanged', T.extract(sk1, 8 * 132, 32, 8 * 128), T.extract(sk0, 8 * 132, 32, 8 * 128), 8 * 128, l)
            c.equal('remaining', nm + ': remaining signatures', a.value('vsa_remaining', b), (1 << h) - i - 1, 32, l)
        else:
            c.true('exhausted-refuses', nm, v is None and bool(ex), 'a signature is produced beyond the last one-time key', l)
            for e in ex:
                c.true('exhausted-refuses', nm + ' with invalid_argument', 'invalid_argument' in str(e.type), K.excname(e), l)
                a.st = e.state
                sk1 = a.bytes('vsa_sk', 132, b)
                c.equal('exhausted-frame', nm + ': key unchanged', sk1, sk0, 8 * 132, l)
                a.st = st0
            a.st = st0
        for x in a.eng.oob:
            c.bad('bounds', nm, '%s %s %s' % x, l)
    c.use(a.eng)


def class_tree(hf, h, w=16):
    exp = SP.hashv('shake256', 96, SP.B(inb('SEED', 48), 48))
    parts = [T.extract(exp, 768, 256 * i, 256) for i in range(3)]
    ln = X.wots_len(w)[3]
    tree = X.Tree(hf, parts[0], parts[2], h, ln)
    return tree, parts + [tree.root()], ln


def class_signatures(c, rule, fast, h, visits, w=16):
    """signatures made through a signing class at the given indexes (moving forward where needed), field by field"""
    a = K.Api()
    hf = HFV()
    s = a.inp('SEED', 48)
    b, ex = a.call('vsa_fast_new', s, 48, h, hf, 0) if fast else a.call('vsa_basic_new', s, 48, h, hf, 0, w)
    l = sigfn(a, fast)
    if b is None or ex:
        raise Undecided('construction refused')
    tree, parts, ln = class_tree(hf, h, w)
    n = 4 + 32 + ln * 32 + 32 * h
    cur = 0
    mls = message_lengths()
    for j, i in enumerate(visits):
        ml = mls[j % len(mls)]
        nm = '%s h=%d%s index %d%s' % (CLS[fast], h, '' if w == 16 else ' w=%d' % w, i, ', message of %d bytes' % ml if isinstance(ml, int) else '')
        if i != cur:
            v, ex = a.call('vsa_set_index', b, i)
            if v is None:
                c.bad(rule, nm, 'moving forward is refused', l)
                return
        m = a.inp('MSG', ml)
        o = a.out(n)
        v, ex = a.call('vsa_sign', b, m, ml, o)
        if v is None:
            c.bad(rule, nm, 'signing is refused', l)
            return
        c.equal(rule, nm + ': signature size', v, n, 64, l)
        SG.cmp_sig(c, rule, nm, a.st.mem[o.obj], SG.sig_spec(hf, i, *parts, ln, ml, tree.auth(i)), ln, h, l)
        cur = i + 1
    c.true('bounds', '%s h=%d stays inside its buffers' % (CLS[fast], h), not a.eng.oob, '; '.join('%s %s %s' % x for x in a.eng.oob[:3]), l)
    c.use(a.eng)


def class_buffers(c, h, k=2, n=32):
    """the traversal buffers a new XmssFast hands to key generation have room for the whole life of a tree of its height"""
    prog = K.program()
    got = []

    def grab(eng, fr, ins, a, st):
        got.append((a[4], st.fork()))
        eng.copy_in(st, a[3], [('v', 132, T.concat([(0, 32)] + [(p, 256) for p in P4()]))])
        eng.copy_in(st, a[2], [('v', 64, inb('PKOUT', 64))])
        return 0
    f = prog.find('xmssfast_Genkeypair')
    if f is None or X.sig_of(f) != 'ippppp':
        raise Undecided('xmssfast_Genkeypair not found with its documented parameters')
    a = K.Api(prog, {'xmssfast_Genkeypair': grab})
    b, ex = make(a, True, h)
    ini = prog.find('XmssFast::initialize_tree') or prog.find('XmssFast::XmssFast')
    l = loc(ini) if ini else None
    if len(got) != 1 or b is None:
        raise Undecided('key generation called %d times' % len(got))
    p, st = got[0]
    eng = a.eng

    def room(q):
        from ..interp import i2p
        q = i2p(q)
        if q == 0:
            return 0
        if isinstance(q, Ptr) and isinstance(q.off, int) and isinstance(q.obj.size, int):
            return q.obj.size - q.off
        return None

    def fld(base, s, f):
        o, w = X.layout(s + '.' + f)
        return eng.load(st, Ptr(base.obj, base.off + o), w)
    need = dict(stack=(h + 1) * n, stacklevels=h + 1, auth=h * n, keep=(h >> 1) * n, treehash=(h - k) * X.th_size(), retain=((1 << k) - k - 1) * n)
    for f, sz in need.items():
        r = room(fld(p, 'bds_state', f))
        c.true('class-buffers', 'XmssFast h=%d %s holds %d bytes' % (h, f, sz), None if r is None else r >= sz, 'has %s' % r, l)
    th = fld(p, 'bds_state', 'treehash')
    seen = set()
    for i in range(h - k):
        q = fld(Ptr(th.obj, th.off + X.th_size() * i), 'treehash_inst', 'node')
        r = room(q)
        c.true('class-buffers', 'XmssFast h=%d treehash instance %d has a node of its own' % (h, i),
               None if r is None else r >= n and not any(o is q.obj and abs(x - q.off) < n for o, x in seen), 'has %s' % r, l)
        if isinstance(q, Ptr):
            seen.add((q.obj, q.off))
    c.equal('class-buffers', 'XmssFast h=%d starts with an empty stack' % h, fld(p, 'bds_state', 'stackoffset'), 0, 32, l)
    c.use(eng)


def exhausted(c, fast, h):
    """any stored index at or beyond 2^h refuses"""
    N = 1 << h
    idx = T.add(T.var('OVER@%d' % h, 32, hi=(1 << 32) - 1 - N), N, 32)
    prog = K.program()
    a = K.Api(prog, K.genkey_models(prog, idx, P4()))
    l = sigfn(a, fast)
    b, ex = make(a, fast, h)
    nm = '%s h=%d any index at or beyond the end' % (CLS[fast], h)
    if b is None:
        raise Undecided('construction refused')
    sk0 = a.bytes('vsa_sk', 132, b)
    m = a.inp('MSG', 5)
    o = a.out(4 + 32 + 67 * 32 + 32 * h)
    v, ex = a.call('vsa_sign', b, m, 5, o)
    c.true('exhausted-refuses', nm, v is None and bool(ex), 'a signature is produced', l)
    for e in ex:
        a.st = e.state
        c.equal('exhausted-frame', nm + ': key unchanged', a.bytes('vsa_sk', 132, b), sk0, 8 * 132, l)
    c.use(a.eng)


def class_set_index(c, h):
    """XmssFast::setIndex refuses every target at or beyond 2^h, and every earlier one, leaving the key alone"""
    N = 1 << h
    prog = K.program()
    for nm, cur, new in (('at or beyond 2^h', T.var('CUR@c%d' % h, 32, hi=N - 1), T.add(T.var('OVER@%d' % h, 32, hi=(1 << 32) - 1 - N), N, 32)),
                         ('below the current index', T.add(T.var('BACK@c%d' % h, 32, hi=N // 2 - 1), T.add(T.var('D@c%d' % h, 32, hi=N // 2 - 1), 1, 32), 32),
                          T.var('BACK@c%d' % h, 32, hi=N // 2 - 1)),
                         ('at 2^h', 0, N), ('at 2^32-1', 3, (1 << 32) - 1), ('one back', N - 1, N - 2)):
        a = K.Api(prog, K.genkey_models(prog, cur, P4()))
        f = prog.find('XmssFast::setIndex')
        l = loc(f) if f else None
        b, ex = make(a, True, h)
        if b is None:
            raise Undecided('construction refused')
        sk0 = a.bytes('vsa_sk', 132, b)
        v, ex = a.call('vsa_set_index', b, new)
        nm = 'XmssFast::setIndex h=%d target %s' % (h, nm)
        c.true('class-refuses', nm, v is None and bool(ex), 'the index is moved', l)
        for e in ex:
            a.st = e.state
            c.equal('class-refuses', nm + ': key unchanged', a.bytes('vsa_sk', 132, b), sk0, 8 * 132, l)
        c.use(a.eng)


def class_moves(c, h):
    a = K.Api()
    f = a.prog.find('XmssFast::setIndex')
    l = loc(f) if f else None
    b, ex = make(a, True, h)
    st0 = a.st
    for i in range(1 << h):
        for j in range(i, 1 << h, 3):
            a.st = st0.fork()
            for t in (i, j):
                v, ex = a.call('vsa_set_index', b, t)
                if v is None:
                    c.bad('class-moves', 'XmssFast h=%d to %d' % (h, t), 'a forward move is refused: %s' % ex, l)
                    return
            c.equal('class-moves', 'XmssFast h=%d to %d then %d' % (h, i, j), a.value('vsa_index', b), j, 32, l)


@check('C08', 'proof', 'abstract interpretation of LLVM IR (core signers and signing classes) to canonical value terms; refusal obligations',
       'The core signers are interpreted with an abstract key at a symbolic index for each tree height: the stored index must become '
       'exactly index+1 and no other key byte may change. The signing classes are interpreted through construction and every signature of '
       'a small tree and two calls beyond the end; with key generation taken by contract the refusal is decided for every stored index '
       'at or beyond 2^h for each height.')
def c08(c):
    prog = PR.load(['xmss'])
    for fast in (True, False):
        for h in (4, 10, 18, 20, 30):
            c.section('index-advances', '%s h=%d' % (SG.NAMES[fast], h), SG.sym_sign, c, prog, fast, h, ('index',))
        for h in (4,) + ((6,) if c.thorough else ()):
            c.section('index-advances', '%s h=%d life' % (CLS[fast], h), class_life, c, fast, h)
        for h in range(4, 31, 2):
            c.section('exhausted-refuses', '%s h=%d' % (CLS[fast], h), exhausted, c, fast, h)
    for i in SG.SAMPLES:
        for fast in (True, False):
            c.section('index-advances', '%s index 0x%x' % (SG.NAMES[fast], i), SG.sym_sign, c, prog, fast, 30, ('index',), i)
    c.assumptions += ['n = 32', 'message length below 2^40', 'H, PRF, WOTS+ operations taken by contract (C02, C04)']


# ------------------------------------------------------------------ C11
def core_layout(c, prog, fast, h):
    k = keygen(c, prog, fast, h)
    st, l = k['st'], loc(k['f'])
    nm = '%s h=%d' % (prog.base(k['f'].name), h)
    sk, pk = st.mem[k['sk']], st.mem[k['pk']]
    root = k['tree'].root()
    for what, off, v in (('index', 0, 0), ('SK_SEED', 4, k['skseed']), ('SK_PRF', 36, k['skprf']), ('PUB_SEED', 68, k['pubseed']), ('root', 100, root)):
        c.equal('secret-key-layout', '%s: %s at %d' % (nm, what, off), sk.read(off, 4 if off == 0 else 32), v, 32 if off == 0 else 256, l)
    c.equal('public-key-layout', nm + ': root at 0', pk.read(0, 32), root, 256, l)
    c.equal('public-key-layout', nm + ': PUB_SEED at 32', pk.read(32, 32), k['pubseed'], 256, l)
    c.equal('seed-frame', nm + ': seed unchanged', st.mem[k['seed']].read(0, 48), inb('SEED', 48), 384, l)
    c.equal('reports-success', nm + ' returns 0', k['ret'], 0, 32, l)
    c.true('bounds', nm + ' stays inside its buffers', not k['eng'].oob, '; '.join('%s %s %s' % x for x in k['eng'].oob[:3]), l)


def desc_bytes(hf, h, af=0):
    return T.concat([(T.extract(hf, 32, 0, 4) if not isinstance(hf, int) else hf & 15, 4), (0, 4), ((h >> 1) & 15 | af << 4, 8), (0, 8)])


def accessors(c, fast, h):
    prog = K.program()
    idx = T.var('IDXA', 32)
    parts = P4()
    log = []
    a = K.Api(prog, K.genkey_models(prog, idx, parts, log))
    hf = HFV()
    b, ex = make(a, fast, h, hf)
    if b is None or ex:
        c.bad('accessor', '%s h=%d' % (CLS[fast], h), 'construction refused: %s' % ex)
        return
    nm = '%s h=%d ' % (CLS[fast], h)
    L = lambda n: (lambda f: loc(f) if f else None)(prog.find('XmssBase::' + n))
    seed = inb('SEED', 48)
    d = desc_bytes(hf, h)
    if len(log) != 1:
        raise Undecided('key generation called %d times' % len(log))
    c.equal('seed-to-generator', nm + 'passes the 48-byte seed', log[0][1], seed, 384, L('XmssBase'))
    c.equal('seed-to-generator', nm + 'passes the hash function', log[0][0], hf, 32, L('XmssBase'))
    full = T.concat([(SP.be(idx, 32, 4), 32)] + [(p, 256) for p in parts])
    for f, dr, n, ex in (('getSK', 'vsa_sk', 132, full), ('getRoot', 'vsa_root', 32, parts[3]), ('getPKSeed', 'vsa_pkseed', 32, parts[2]),
                         ('getSKSeed', 'vsa_skseed', 32, parts[0]), ('getSKPRF', 'vsa_skprf', 32, parts[1]), ('getSeed', 'vsa_seed', 48, seed),
                         ('getPK', 'vsa_pk', 67, T.concat([(d, 24), (parts[3], 256), (parts[2], 256)])),
                         ('getExtendedSeed', 'vsa_extseed', 51, T.concat([(d, 24), (seed, 384)])),
                         ('getDescriptorBytes', 'vsa_descbytes', 3, d)):
        def one(f, dr, n, ex):
            o = a.out(4096)
            v, exc = a.call(dr, b, o)
            if v is None or exc:
                c.bad('accessor', nm + f, 'raises %s' % exc, L(f))
                return
            c.equal('accessor-size', nm + f + ' size', v, n, 64, L(f))
            if v == n:
                c.equal('accessor', nm + f, a.mem(o, 0, n), ex, 8 * n, L(f))
        c.section('accessor', nm + f, one, f, dr, n, ex)
    for f, dr, w, ex in (('getIndex', 'vsa_index', 32, idx), ('getHeight', 'vsa_height', 32, h), ('getNumberSignatures', 'vsa_nsig', 32, 1 << h),
                         ('getRemainingSignatures', 'vsa_remaining', 32, T.sub(1 << h, idx, 32)),
                         ('getSecretKeySize', 'vsa_sksize', 32, 132), ('getPublicKeySize', 'vsa_pksize', 32, 67)):
        c.section('accessor', nm + f, lambda: c.equal('accessor', nm + f, a.value(dr, b), ex, w, L(f)))
    for w, ln in ((16, 67), (4, 133), (2, 265), (256, 34)):
        c.section('accessor', nm + 'getSignatureSize', lambda: c.equal('accessor', nm + 'getSignatureSize w=%d' % w, a.value('vsa_sigsize', b, w),
                                                                       4 + 32 + 32 * ln + 32 * h, 32, L('getSignatureSize')))
    for x in a.eng.oob:
        c.bad('bounds', nm, '%s %s %s' % x)
    c.use(a.eng)


def set_index_basic(c):
    prog = K.program()
    a = K.Api(prog, K.genkey_models(prog, 0, P4()))
    b, ex = make(a, False, 10)
    new = T.var('NEWIDX@10', 32, hi=(1 << 10) - 1)
    v, ex = a.call('vsa_set_index', b, new)
    f = prog.find('XmssBase::setIndex')
    l = loc(f) if f else None
    if v is None or ex:
        c.bad('index-writer', 'XmssBase::setIndex', 'refuses an index inside the tree: %s' % ex, l)
        return
    sk = a.bytes('vsa_sk', 132, b)
    c.equal('index-writer', 'XmssBase::setIndex writes the index big-endian', T.extract(sk, 8 * 132, 0, 32), SP.be(new, 32, 4), 32, l)
    c.equal('index-writer', 'XmssBase::setIndex leaves the rest', T.extract(sk, 8 * 132, 32, 1024), T.concat([(p, 256) for p in P4()]), 1024, l)
    c.equal('index-writer', 'XmssBase::setIndex returns the index', v, new, 32, l)
    c.equal('index-writer', 'getIndex reads it back', a.value('vsa_index', b), new, 32, l)


def update_sk(c, prog):
    from ..interp import Engine, State
    f = prog.find('xmss_updateSK')
    if f is None:
        return
    eng = Engine(prog, X.opaque(prog, ()))
    for nm, cur, new, ok in (('target above', T.var('US', 32, hi=1000), T.add(T.var('UD', 64, hi=1000), 1001, 64), True),
                             ('target not above', T.add(T.var('UE', 32, hi=1000), 1001, 32), T.var('UF', 64, hi=1000), False)):
        st = State()
        sk = eng.new_obj(st, 'sk', 132)
        st.mem[sk].write(0, 132, SG.sk_spec(cur, *P4()))
        r = eng.call(f, [Ptr(sk), new], st)
        v = r[1].mem[sk].read(0, 4)
        c.equal('index-writer', 'xmss_updateSK %s' % nm, v, SP.be(T.trunc(new, 64, 32) if ok else cur, 32, 4), 32, loc(f))
        c.equal('index-writer', 'xmss_updateSK %s status' % nm, r[0], 0 if ok else (1 << 32) - 1, 32, loc(f))
    c.use(eng)


@check('C11', 'proof', 'abstract interpretation of LLVM IR (key generators and class accessors) to canonical value terms',
       'Both key generators are interpreted from an abstract 48-byte seed for enumerated heights: every byte of both keys must equal the '
       'specified term. With key generation taken by that contract (all fields abstract), every accessor and index writer of the classes is '
       'interpreted for enumerated heights and must return exactly the field it names.')
def c11(c):
    prog = PR.load(['xmss'])
    for fast in (True, False):
        for h in (4, 6) + ((8,) if c.thorough else ()):
            c.section('secret-key-layout', 'h=%d fast=%s' % (h, fast), core_layout, c, prog, fast, h)
        for h in (4, 10, 18, 30) if not c.thorough else range(4, 31, 2):
            c.section('accessor', '%s h=%d' % (CLS[fast], h), accessors, c, fast, h)
    c.section('index-writer', 'XmssBase::setIndex', set_index_basic, c)
    c.section('index-writer', 'xmss_updateSK', update_sk, c, prog)
    c.assumptions += ['n = 32', 'H, PRF, WOTS+ operations taken by contract (C02, C04)']


# ------------------------------------------------------------------ C25
def refuse(c, nm, v, ex, gen, l):
    c.true('refuses', nm, v is None and bool(ex), 'an object is constructed', l)
    for e in ex:
        c.true('refuses', nm + ' with invalid_argument', 'invalid_argument' in str(e.type), K.excname(e), l)
    c.true('before-key-material', nm, not gen, 'key generation ran before the refusal', l)


def params(c):
    prog = K.program()
    parts = P4()

    def api():
        log = []
        a = K.Api(prog, K.genkey_models(prog, 0, parts, log))
        return a, log
    last = [None]
    for fast in (True, False):
        l = (lambda f: loc(f) if f else None)(prog.find('%s::%s' % (CLS[fast], CLS[fast])))

        def seedlen(n):
            a, log = api()
            v, ex = make(a, fast, 10, n=n)
            nm = '%s seed of %s bytes' % (CLS[fast], 'any length above 48' if not isinstance(n, int) else n)
            if n == 48:
                c.true('accepts', nm, v is not None and not ex, 'a documented parameter is refused: %s' % ex, l)
            else:
                refuse(c, nm, v, ex, log, l)
            last[0] = a
        for n in (0, 1, 32, 47, 48, 49, 51, 64, 96):
            c.section('refuses', '%s seed size %d' % (CLS[fast], n), seedlen, n)
        c.section('refuses', '%s any seed size above 48' % CLS[fast], seedlen, T.add(T.var('SEEDX', 64, hi=1 << 30), 49, 64))

        def height(h):
            a, log = api()
            v, ex = make(a, fast, h)
            nm = '%s height %d' % (CLS[fast], h)
            if h % 2 == 0 and 4 <= h <= 30:
                c.true('accepts', nm, v is not None and not ex, 'a supported height is refused: %s' % ex, l)
            else:
                refuse(c, nm, v, ex, log, l)
        for h in range(256):
            c.section('refuses', '%s height %d' % (CLS[fast], h), height, h)

        def hashf(hf):
            a, log = api()
            v, ex = make(a, fast, 10, hf)
            nm = '%s hash function %s' % (CLS[fast], hf if isinstance(hf, int) else 'any above 2')
            if isinstance(hf, int) and hf < 3:
                c.true('accepts', nm, v is not None and not ex, 'a supported hash function is refused: %s' % ex, l)
            else:
                refuse(c, nm, v, ex, log, l)
        for hf in (0, 1, 2, 3, 4, 15, 16, 255, 256, 0x7FFFFFFF, 0xFFFFFFFF):
            c.section('refuses', '%s hash function %d' % (CLS[fast], hf), hashf, hf)
        c.section('refuses', '%s hash functions above 2' % CLS[fast], hashf, T.add(T.var('HFX', 32, hi=(1 << 31)), 3, 32))
        if not fast:
            def wp(w):
                a, log = api()
                v, ex = make(a, fast, 10, w=w)
                nm = 'XmssBasic Winternitz parameter %d' % w
                if w in (4, 16):
                    c.true('accepts', nm, v is not None and not ex, 'a supported parameter is refused: %s' % ex, l)
                elif w not in (2, 256):
                    refuse(c, nm, v, ex, log, l)
            for w in list(range(0, 70)) + [127, 128, 255, 256, 257, 512, 1024, 65536, 1 << 31, (1 << 32) - 1, (1 << 32) - 16]:
                c.section('refuses', 'XmssBasic w=%d' % w, wp, w)

    l = (lambda f: loc(f) if f else None)(prog.find('XmssBase::XmssBase'))

    def ext(n, b0, b1, ok, nm):
        a, log = api()
        s = a.inp('ESEED', n)
        if b0 is not None:
            a.st.mem[s.obj].write(0, 1, b0)
            a.st.mem[s.obj].write(1, 1, b1)
        v, ex = a.call('vsa_fast_ext', s, n)
        if ok:
            c.true('accepts', nm, v is not None and not ex, 'refused: %s' % ex, l)
            if v is not None and len(log) == 1:
                c.equal('seed-to-generator', nm + ' passes bytes 3..50 as the seed', log[0][1], T.seqbytes(T.seq('ESEED'), 3, 48), 384, l)
                c.equal('seed-to-generator', nm + ' passes the hash function', log[0][0], b0 & 15, 32, l)
                c.equal('seed-to-generator', nm + ' height', a.value('vsa_height', v), (b1 & 15) * 2, 32, l)
        else:
            refuse(c, nm, v, ex, log, l)
        last[0] = a
    for n in (0, 2, 3, 48, 50, 52, 67):
        c.section('refuses', 'extended seed size %d' % n, ext, n, None, None, False, 'extended seed of %d bytes' % n)
    for b0 in range(256):
        for b1 in ((5,) if b0 & 0xF0 or b0 > 2 else range(16)):
            good = b0 <= 2 and 2 <= b1 <= 15
            c.section('refuses', 'extended seed %02x%02x' % (b0, b1), ext, 51, b0, b1, good, 'extended seed with descriptor %02x %02x' % (b0, b1))
    if last[0]:
        c.use(last[0].eng)


@check('C25', 'proof', 'abstract interpretation of LLVM IR of the constructors over an exhaustive partition of their parameters (refusal obligations)',
       'The constructors are interpreted with key generation taken by contract for every height 0..255, representative and symbolic seed '
       'sizes, hash function values, Winternitz parameters and every descriptor byte: unsupported ones must raise invalid_argument and '
       'must not have called key generation; supported ones must pass exactly the given seed and hash function on.')
def c25(c):
    params(c)
    c.assumptions += ['address format is checked where it is used (C13)']
