"""C07: signature layout; C08: one index per signature; C09: index moves forward only; C20: traversal state."""
from .. import terms as T, program as PR, spec as SP, xmss as X
from ..core import check
from ..interp import Engine, State, Ptr
from ..terms import Undecided
from .hashes import loc
from .wots import HFV
from .verify import inb, bds_state, keygen

ALL = X.HASHES + X.WOTS + ('l_tree',)
SIGNSIG = {True: 'ipppppi', False: 'ippppi'}
NAMES = {True: 'xmssfast_Signmsg', False: 'xmss_Signmsg'}


def signer(prog, fast):
    f = prog.find(NAMES[fast])
    if f is None or X.sig_of(f) != SIGNSIG[fast]:
        raise Undecided('%s not found with its documented parameters' % NAMES[fast])
    return f


def sig_spec(hf, idx, skseed, skprf, pub, root, ln, mlen, auth):
    """list of (name, value, bytes) of the specified signature"""
    R = X.PRF(hf, SP.be(idx, 32, 32), skprf)
    key = T.concat([(R, 256), (root, 256), (SP.be(idx, 32, 32), 256)])
    mh = X.HMSG(hf, key, [SP.B(inb('MSG', mlen), mlen) if isinstance(mlen, int) else ('s', mlen, T.seq('MSG'), 0)])
    a = SP.Adrs([0, 0, 0, 0, idx, 0, 0, 0])
    os = X.PRF(hf, a.bytes(), skseed)
    w = X.WSIG(hf, mh, os, pub, X.leaf_addr(0, idx), ln)
    return [('index', SP.be(idx, 32, 4), 4), ('randomiser', R, 32), ('WOTS+ signature', w, 32 * ln), ('authentication path', auth, 32 * len(auth) if isinstance(auth, list) else None)]


def sk_spec(idx, skseed, skprf, pub, root):
    return T.concat([(SP.be(idx, 32, 4), 32), (skseed, 256), (skprf, 256), (pub, 256), (root, 256)])


def run_sign(eng, prog, fast, st, hf, params, sk, state, h, ln, mlen, k=0):
    f = signer(prog, fast)
    n = 4 + 32 + 32 * ln + 32 * h
    sig = eng.new_obj(st, 'signature', n)
    msg = eng.input_obj(st, 'MSG', mlen)
    args = [hf, Ptr(params), Ptr(sk)] + ([Ptr(state)] if fast else []) + [Ptr(sig), Ptr(msg), mlen]
    r = eng.call(f, args, st)
    return f, sig, msg, r


def cmp_sig(c, rule, nm, mem, spec, ln, h, l, only=None):
    off = 0
    for name, v, n in spec:
        if name == 'authentication path':
            for i, a in enumerate(v):
                if only is None or name in only:
                    c.equal(rule, '%s: authentication node %d' % (nm, i), mem.read(off, 32), a, 256, l)
                off += 32
        else:
            if only is None or name in only:
                c.equal(rule, '%s: %s at offset %d' % (nm, name, off), mem.read(off, n), v, 8 * n, l)
            off += n


def cmp_sk(c, nm, mem, idx, parts, l):
    c.equal('index-advances', nm + ': stored index is one higher', mem.read(0, 4), SP.be(T.add(idx, 1, 32), 32, 4), 32, l)
    for name, off, v in (('secret seed', 4, parts[0]), ('PRF key', 36, parts[1]), ('public seed', 68, parts[2]), ('root', 100, parts[3])):
        c.equal('key-frame', '%s: %s unchanged' % (nm, name), mem.read(off, 32), v, 256, l)


# ------------------------------------------------------------------ symbolic index
SKIP = ('bds_round', 'bds_treehash_update', 'compute_authpath_wots')


def sym_sign(c, prog, fast, h, rules, idxv=None, w=16):
    """one signing call on an abstract key; idxv None: symbolic index in [0, 2^h)"""
    hf = HFV()
    ln = X.wots_len(w)[3]
    eng = Engine(prog, X.opaque(prog, ALL))
    st = State()
    p, st = X.xmss_params(prog, eng, st, h, w)
    idx = T.var('IDX@%d' % h, 32, hi=(1 << h) - 1) if idxv is None else idxv
    parts = [inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]
    sk = eng.new_obj(st, 'sk', 132)
    st.mem[sk].write(0, 132, sk_spec(idx, *parts))
    state = None
    if fast:
        B, st = bds_state(prog, eng, st, h)
        state = B['state']
        for nm in ('auth', 'keep', 'retain', 'nodes'):
            o = B[nm]
            st.mem[o].write(0, o.size, inb(nm.upper(), o.size))
        X.th_reset(st, B, h)
    skipped = []

    def hook(eng, fr, ins, f, args, st):
        if f is not None and getattr(f, 'name', None) and f.internal:
            b = prog.base(f.name)
            if b in SKIP:
                skipped.append(b)
                if b == 'compute_authpath_wots':
                    eng.copy_in(st, args[2], [('v', 32 * h, inb('PATH', 32 * h))])
                    eng.copy_in(st, args[1], [('v', 32, inb('ROOT2', 32))])
                return (0, st)
        return None
    if idxv is None or not fast:
        eng.callhook = hook
    mlen = T.var('mlen', 64, hi=(1 << 40) - 1)
    before = None
    f, sig, msg, r = run_sign(eng, prog, fast, st, hf, p, sk, state, h, ln, mlen)
    c.use(eng)
    nm = '%s h=%d %s' % (NAMES[fast], h, 'any index' if idxv is None else 'index 0x%x' % idxv)
    l = loc(f)
    if r is None:
        c.und(rules[0], nm, 'never returns')
        return
    ret, st = r
    auth = [T.seqbytes(T.seq('AUTH' if fast else 'PATH'), 32 * i, 32) for i in range(h)]
    spec = sig_spec(hf, idx, *parts, ln, mlen, auth)
    if 'layout' in rules:
        only = None
        if not fast and 'compute_authpath_wots' not in skipped:
            only = ('index', 'randomiser', 'WOTS+ signature')
        cmp_sig(c, 'layout', nm, st.mem[sig], spec, ln, h, l, only)
    if 'index' in rules:
        cmp_sk(c, nm, st.mem[sk], idx, parts, l)
        c.equal('reports-success', nm + ' returns 0', ret, 0, 32, l)
    if 'bounds' in rules:
        c.true('bounds', nm + ' stays inside its buffers', not eng.oob, '; '.join('%s %s %s' % x for x in eng.oob[:3]), l)


# ------------------------------------------------------------------ stepping a real key through its life
def life(c, prog, fast, h, rules, how='sign', indices=None, w=16, kg=None):
    """from key generation step through the tree; compare with the specification"""
    k = kg or keygen(c, prog, fast, h, w)
    eng, st, tree, hf, ln = k['eng'], k['st'], k['tree'], k['hf'], k['ln']
    if kg:
        st = st.fork()
    parts = [k['skseed'], k['skprf'], k['pubseed'], tree.root()]
    mlen = T.var('mlen', 64, hi=(1 << 40) - 1)
    n = 1 << h
    B = k['bds']
    f = signer(prog, fast)
    l = loc(f)
    u = prog.find('xmssfast_update')
    snaps = []
    for i in range(n):
        if fast and 'auth' in rules:
            m = st.mem[B['auth']]
            for lv, a in enumerate(tree.auth(i)):
                v = m.read(32 * lv, 32)
                if v == a:
                    c.ok('auth-node', 'h=%d index %d level %d (%s)' % (h, i, lv, how))
                else:
                    c.equal('auth-node', 'h=%d index %d level %d (%s)' % (h, i, lv, how), v, a, 256, l)
        if 'snap' in rules:
            snaps.append({x: st.mem[B[x]].clone() for x in ('auth', 'keep', 'stack', 'levels', 'treehash', 'nodes', 'retain', 'state')})
        if how == 'sign':
            if indices is not None and i not in indices and not fast:
                # the plain signer is stateless but for the index: place the index
                st.mem[k['sk']].write(0, 4, SP.be(i + 1, 32, 4))
                continue
            f, sig, msg, r = run_sign(eng, prog, fast, st, hf, k['params'], k['sk'], B and B['state'], h, ln, mlen)
            if r is None:
                c.und('layout', 'h=%d index %d' % (h, i), 'signing never returns')
                return None
            st = r[1]
            nm = '%s h=%d index %d' % (NAMES[fast], h, i)
            if 'layout' in rules:
                cmp_sig(c, 'layout', nm, st.mem[sig], sig_spec(hf, i, *parts, ln, mlen, tree.auth(i)), ln, h, l)
            if 'index' in rules:
                cmp_sk(c, nm, st.mem[k['sk']], i, parts, l)
            st.mem.pop(sig, None)
            st.mem.pop(msg, None)
        else:
            if i + 1 == n:
                break
            r = eng.call(u, [hf, Ptr(k['params']), Ptr(k['sk']), Ptr(B['state']), i + 1], st)
            if r is None or eng.exc:
                c.bad('moves-forward', 'xmssfast_update h=%d %d -> %d' % (h, i, i + 1), 'raises or never returns', loc(u))
                return None
            st = r[1]
            if 'index' in rules:
                c.equal('stores-target', 'xmssfast_update h=%d %d -> %d' % (h, i, i + 1), st.mem[k['sk']].read(0, 4), SP.be(i + 1, 32, 4), 32, loc(u))
    if 'bounds' in rules:
        c.true('bounds', '%s h=%d whole life by %s' % (NAMES[fast], h, how), not eng.oob, '; '.join('%s %s %s' % x for x in eng.oob[:3]), l)
    c.use(eng)
    return snaps, k, st


SAMPLES = (0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x1234, 0xFFFF, 0x10000, 0x20304, 0xFFFFFF, 0x1000000, 0x2030405, 0x3FFFFFFE)


@check('C07', 'proof', 'abstract interpretation of LLVM IR to canonical value terms, compared with the RFC 8391 signature layout',
       'Both core signers are interpreted with an abstract key, a message of symbolic length and an abstract index (every index at once; '
       'the path/traversal helpers are skipped there) and at every index of a small tree with nothing skipped; each field of the produced '
       'signature must equal the specified term.')
def c07(c):
    prog = PR.load(['xmss'])
    for fast in (True, False):
        for h in (4, 10, 20, 30):
            c.section('layout', '%s h=%d any index' % (NAMES[fast], h), sym_sign, c, prog, fast, h, ('layout', 'bounds'))
    for i in SAMPLES:
        for fast in (True, False):
            c.section('layout', '%s index 0x%x' % (NAMES[fast], i), sym_sign, c, prog, fast, 30, ('layout', 'bounds'), i)
    for w in (2, 4, 256):
        for fast in (True, False):
            c.section('layout', '%s w=%d' % (NAMES[fast], w), sym_sign, c, prog, fast, 4, ('layout', 'bounds'), None, w)
    for fast, hs in ((True, (4, 6)), (False, (4,))):
        for h in hs + ((8,) if c.thorough and fast else ()):
            c.section('layout', '%s h=%d every index' % (NAMES[fast], h), life, c, prog, fast, h, ('layout', 'bounds'))
    from . import keys
    for fast in (True, False):
        c.section('layout', '%s h=4' % keys.CLS[fast], keys.class_signatures, c, 'layout', fast, 4, range(16) if c.thorough else (0, 1, 2, 3, 6, 7, 11, 15))
    for w in (2, 4, 256):
        c.section('layout', 'XmssBasic h=4 w=%d' % w, keys.class_signatures, c, 'layout', False, 4, (0, 5), w)
    c.assumptions += ['n = 32', 'message length below 2^40', 'H, PRF, WOTS+ operations taken by contract (C02, C04)']


# ------------------------------------------------------------------ C09
def update_symbolic(c, prog, h, w=16):
    """refusals: symbolic current index and target; nothing may be written before the exception"""
    u = prog.find('xmssfast_update')
    if u is None or X.sig_of(u) != 'ipppi':
        raise Undecided('xmssfast_update not found with its documented parameters')
    l = loc(u)
    N = 1 << h

    def setup(cur, new):
        eng = Engine(prog, X.opaque(prog, ALL))
        st = State()
        p, st = X.xmss_params(prog, eng, st, h, w)
        sk = eng.new_obj(st, 'sk', 132)
        st.mem[sk].write(0, 132, sk_spec(cur, *[inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]))
        B, st = bds_state(prog, eng, st, h)
        for nm in ('auth', 'keep', 'retain', 'nodes'):
            o = B[nm]
            st.mem[o].write(0, o.size, inb(nm.upper(), o.size))
        return eng, st, p, sk, B

    def frame(nm, st, B, sk, st0):
        for x in ('auth', 'keep', 'retain', 'nodes', 'stack', 'levels', 'treehash', 'state'):
            o = B[x]
            a, b = st.mem[o], st0.mem[o]
            same = a is b or all(a.read(i, n) == b.read(i, n) for i, n in chunks(x, o.size))
            c.true('refusal-frame', '%s leaves %s' % (nm, x), same, '', l)
        c.equal('refusal-frame', nm + ' leaves the key', st.mem[sk].read(0, 132), st0.mem[sk].read(0, 132), 8 * 132, l)

    def refuse(nm, cur, new):
        eng, st, p, sk, B = setup(cur, new)
        st0 = st.fork()
        r = eng.call(u, [HFV(), Ptr(p), Ptr(sk), Ptr(B['state']), new], st)
        c.use(eng)
        c.true('refuses', nm + ' is refused with an exception', r is None and bool(eng.exc), 'returns %s' % (r and T.show(r[0])), l)
        for e in eng.exc:
            frame(nm, e.state, B, sk, st0)
            c.true('refuses', nm + ' raises invalid_argument', 'invalid_argument' in str(e.type), str(e.type), l)

    def accept(nm, cur):
        """moving to the current index changes nothing"""
        eng, st, p, sk, B = setup(cur, cur)
        st0 = st.fork()
        r = eng.call(u, [HFV(), Ptr(p), Ptr(sk), Ptr(B['state']), cur], st)
        c.use(eng)
        if r is None:
            c.bad('no-move', nm, 'refused', l)
            return
        frame(nm, r[1], B, sk, st0)
        c.equal('no-move', nm + ' returns 0', r[0], 0, 32, l)
    v = lambda nm, w, hi=None: T.var('%s@%d' % (nm, h), w, hi=hi)
    refuse('h=%d target at or beyond 2^h' % h, v('CUR', 32), T.add(v('OVER', 32, hi=(1 << 32) - 1 - N), N, 32))
    cur = T.add(v('BACK', 32, hi=N // 2 - 1), T.add(v('D', 32, hi=N // 2 - 1), 1, 32), 32)
    refuse('h=%d target below the current index' % h, cur, v('BACK', 32, hi=N // 2 - 1))
    accept('h=%d target equal to the current index' % h, v('CUR', 32, hi=N - 1))


chunks = X.struct_fields


@check('C09', 'proof', 'abstract interpretation of LLVM IR: refusal conditions with frame obligations, and value terms after enumerated moves',
       'xmssfast_update is interpreted with symbolic current and target index for every refusal class (no write may precede the '
       'exception) and, for small trees, for every single step and every jump (start, target), comparing the stored index and the '
       'authentication path with the specified tree.')
def c09(c):
    prog = PR.load(['xmss'])
    for h in (4, 10, 18, 30):
        c.section('refuses', 'xmssfast_update h=%d' % h, update_symbolic, c, prog, h)
    u = prog.find('xmssfast_update')
    l = loc(u) if u else None
    n = 0
    for h in (4,) + ((6,) if c.thorough else ()):
        def jumps(h):
            res = life(c, prog, True, h, ('snap', 'index', 'auth', 'bounds'), 'update')
            if res is None:
                return
            snaps, k, _ = res
            eng, tree = k['eng'], k['tree']
            N = 1 << h
            for a in range(N - 1):
                for b in range(a + 2, N):
                    st = k['st'].fork()
                    # state at index a
                    for x, m in snaps[a].items():
                        st.mem[k['bds'][x]] = m.clone()
                    st.mem[k['sk']] = st.mem[k['sk']].clone()
                    st.mem[k['sk']].write(0, 4, SP.be(a, 32, 4))
                    r = eng.call(u, [k['hf'], Ptr(k['params']), Ptr(k['sk']), Ptr(k['bds']['state']), b], st)
                    nm = 'xmssfast_update h=%d %d -> %d' % (h, a, b)
                    if r is None:
                        c.bad('moves-forward', nm, 'refused', l)
                        continue
                    st = r[1]
                    c.equal('stores-target', nm, st.mem[k['sk']].read(0, 4), SP.be(b, 32, 4), 32, l)
                    c.equal('reports-success', nm, r[0], 0, 32, l)
                    bad = [lv for lv, x in enumerate(tree.auth(b)) if st.mem[k['bds']['auth']].read(32 * lv, 32) != x]
                    c.true('steps-each-once', nm + ' leaves the path of the target', not bad, 'levels %s' % bad, l)
            for a in range(N):
                for b in sorted(set(range(a)) | {N, N + 1, N + 3, 2 * N, 16 * N, 1 << 16, (1 << 31) + 1, (1 << 32) - 1}):
                    c.section('refuses', 'h=%d %d -> %d' % (h, a, b), refused, snaps, k, h, a, b)

        def refused(snaps, k, h, a, b):
            eng = k['eng']
            eng.exc = []
            oob = len(eng.oob)
            st = k['st'].fork()
            for x, m in snaps[a].items():
                st.mem[k['bds'][x]] = m.clone()
            st.mem[k['sk']] = st.mem[k['sk']].clone()
            st.mem[k['sk']].write(0, 4, SP.be(a, 32, 4))
            nm = 'xmssfast_update h=%d %d -> %d' % (h, a, b)
            try:
                r = eng.call(u, [k['hf'], Ptr(k['params']), Ptr(k['sk']), Ptr(k['bds']['state']), b], st)
            except Undecided:
                if len(eng.oob) == oob:
                    raise
                r = 'x'
            if len(eng.oob) > oob:
                c.bad('refuses', nm, 'instead of a refusal: %s %s %s' % eng.oob[oob], l)
                del eng.oob[oob:]
            else:
                c.true('refuses', nm, r is None and bool(eng.exc), 'is carried out', l)
                for e in eng.exc:
                    c.true('refuses', nm + ' raises invalid_argument', 'invalid_argument' in str(e.type), str(e.type), l)
        c.section('moves-forward', 'xmssfast_update h=%d jumps' % h, jumps, h)
    from . import keys
    for h in (4, 6, 10, 30):
        c.section('class-refuses', 'XmssFast::setIndex h=%d' % h, keys.class_set_index, c, h)
    c.section('class-refuses', 'XmssFast h=4 moves', keys.class_moves, c, 4)
    c.assumptions += ['n = 32', 'the state handed in is the one key generation and earlier moves produce']


@check('C20', 'bounded', 'abstract interpretation of LLVM IR over complete key lives, compared with the specified tree nodes; bounds obligations on every access',
       'For each enumerated tree height, key generation and then every signing step and every update step of the whole life are '
       'interpreted with abstract secret seeds; before each step the stored path must be, node by node, the specified sibling path; '
       'every access to the exact-size traversal buffers must be in range. For large heights the first steps after key generation are '
       'interpreted from the specified initial state.')
def c20(c):
    prog = PR.load(['xmss'])
    for h in (4, 6, 8, 10, 12) + ((14,) if c.thorough else ()):
        def run(h):
            kg = keygen(c, prog, True, h)
            life(c, prog, True, h, ('auth', 'bounds'), 'sign', kg=kg)
            if h <= (10 if c.thorough else 8):
                life(c, prog, True, h, ('auth', 'bounds'), 'update', kg=kg)
        c.section('auth-node', 'life h=%d' % h, run, h)
    from . import keys
    for h in range(4, 31, 2):
        c.section('class-buffers', 'XmssFast h=%d' % h, keys.class_buffers, c, h)
    for h, visits in ((4, range(16)), (4, (0, 5, 6, 12, 15)), (6, (0, 1, 17, 31, 32, 63)), (6, (62, 63))) + \
            (((6, range(64)), (8, range(0, 256, 3)), (8, (255,))) if c.thorough else ()):
        c.section('auth-node', 'XmssFast h=%d' % h, keys.class_signatures, c, 'class-path', True, h, visits)
    for h, i0 in FAR_Q + (FAR_T if c.thorough else ()):
        c.section('auth-node', 'far h=%d from 0x%x' % (h, i0), far, c, prog, h, i0)
    c.assumptions += ['n = 32', 'heights enumerated for whole lives; for larger heights low levels (0-3) on sampled index windows',
                      'H, PRF, WOTS+ operations taken by contract (C02, C04)']


FAR_Q = ((10, 0xF0), (18, 0xFFF0), (18, 0x1FFC0), (30, 0xFFFFF0), (30, 0x1234560))
FAR_T = ((16, 0x7FE0), (20, 0x80000), (26, 0x2000000), (30, 0x3FFFFF00), (30, 0x1FFFFFE0), (30, 0x20000000))


def far(c, prog, h, i0, levels=4, steps=96):
    """a window of a tall tree, from a state with no pending treehash instance: once every node of the low levels has
    been recomputed by the traversal, the low levels of the path must be the specified nodes"""
    hf = HFV()
    eng = Engine(prog, X.opaque(prog, ALL))
    st = State()
    p, st = X.xmss_params(prog, eng, st, h, 16)
    parts = [inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]
    sk = eng.new_obj(st, 'sk', 132)
    st.mem[sk].write(0, 132, sk_spec(i0, *parts))
    B, st = bds_state(prog, eng, st, h)
    for nm in ('auth', 'keep', 'retain', 'nodes'):
        st.mem[B[nm]].write(0, B[nm].size, inb(nm.upper(), B[nm].size))
    X.th_reset(st, B, h)
    tree = X.Tree(hf, parts[0], parts[2], h, 67)
    u = prog.find('xmssfast_update')
    if u is None or X.sig_of(u) != 'ipppi':
        raise Undecided('xmssfast_update not found with its documented parameters')
    l = loc(u)
    for j in range(i0, min(i0 + steps, (1 << h) - 1)):
        r = eng.call(u, [hf, Ptr(p), Ptr(sk), Ptr(B['state']), j + 1], st)
        if r is None:
            c.bad('auth-node', 'h=%d index 0x%x' % (h, j), 'the step is refused', l)
            return
        st = r[1]
        if j + 1 >= i0 + 6 * (1 << (levels - 1)):
            for lv in range(levels):
                c.equal('auth-node', 'h=%d index 0x%x level %d (window)' % (h, j + 1, lv), st.mem[B['auth']].read(32 * lv, 32),
                        tree.node(lv, ((j + 1) >> lv) ^ 1), 256, l)
    c.true('bounds', 'xmssfast_update h=%d window at 0x%x' % (h, i0), not eng.oob, '; '.join('%s %s %s' % x for x in eng.oob[:3]), l)
    c.use(eng)
