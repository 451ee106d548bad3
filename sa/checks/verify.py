"""C05: tree hashing; C06: core verification."""
from .. import terms as T, program as PR, spec as SP, xmss as X
from ..core import check
from ..interp import Engine, State, Ptr
from .hashes import adrs_in, loc
from .wots import HFV


def inb(name, n):
    return T.seqbytes(T.seq(name), 0, n)


def ltree_obs(c, prog, w):
    f = prog.find('l_tree')
    if f is None or X.sig_of(f) != X.SIGS['l_tree'][1]:
        c.und('l-tree', 'l_tree w=%d' % w, 'not found with its documented parameters')
        return
    ln = X.wots_len(w)[3]
    hf = HFV()
    eng = Engine(prog, X.opaque(prog, X.HASHES))
    st = State()
    wp, st = X.wots_params(prog, eng, st, w)
    pk = eng.input_obj(st, 'WPK', 32 * ln)
    pub = eng.input_obj(st, 'PUB', 32)
    out = eng.new_obj(st, 'leaf', 32)
    a, adrs = adrs_in(eng, st)
    r = eng.call(f, [hf, Ptr(wp), Ptr(out), Ptr(pk), Ptr(pub), Ptr(a)], st)
    c.use(eng)
    st = r[1]
    pv = inb('PUB', 32)
    ex = X.ltree_by_H(hf, [T.seqbytes(T.seq('WPK'), 32 * i, 32) for i in range(ln)], pv, adrs.w)
    c.equal('l-tree', 'l_tree over %d nodes' % ln, st.mem[out].read(0, 32), ex, 256, loc(f))
    for i in range(5):
        c.equal('address-frame', 'l_tree w=%d leaves address word %d' % (w, i), st.mem[a].read(4 * i, 4), adrs.w[i], 32, loc(f))
    c.equal('input-frame', 'l_tree w=%d leaves the public seed' % w, st.mem[pub].read(0, 32), pv, 256, loc(f))
    for x in eng.oob:
        c.bad('bounds', 'l_tree w=%d' % w, '%s %s %s' % x, loc(f))


def verify_run(c, prog, h, w, mods, mlen=None):
    f = prog.find('xmss_Verifysig')
    if f is None or X.sig_of(f) != 'ippippi':
        raise T.Undecided('xmss_Verifysig not found with its documented parameters')
    hf = HFV()
    ln = X.wots_len(w)[3]
    eng = Engine(prog, mods)
    st = State()
    wp, st = X.wots_params(prog, eng, st, w)
    if mlen is None:
        mlen = T.var('mlen', 64, hi=(1 << 40) - 1)
    msg = eng.input_obj(st, 'MSG', mlen)
    n = 4 + 32 + 32 * ln + 32 * h
    sig = eng.input_obj(st, 'SIG', n)
    pk = eng.input_obj(st, 'PK', 64)
    before = {o: st.mem[o] for o in (msg, sig, pk)}
    r = eng.call(f, [hf, Ptr(wp), Ptr(msg), mlen, Ptr(sig), Ptr(pk), h], st)
    c.use(eng)
    root, pub = inb('PK', 32), T.seqbytes(T.seq('PK'), 32, 32)
    S = lambda a, b: T.seqbytes(T.seq('SIG'), a, b)
    idx = T.bswap_bytes(S(0, 4), 4)
    key = T.concat([(S(4, 32), 256), (root, 256), (SP.be(idx, 32, 32), 256)])
    mh = X.HMSG(hf, key, [('s', mlen, T.seq('MSG'), 0) if isinstance(mlen, T.S) else SP.B(inb('MSG', mlen), mlen)])
    wpk = X.WREC(hf, S(36, 32 * ln), mh, pub, X.leaf_addr(0, idx), ln)
    node = X.LTREE(hf, wpk, pub, X.leaf_addr(1, idx))
    for l in range(h):
        p = S(36 + 32 * ln + 32 * l, 32)
        b = T.extract(idx, 32, l, 1)
        two = T.concat([(T.ite(b, p, node, 256), 256), (T.ite(b, node, p, 256), 256)])
        node = X.H(hf, two, pub, [0, 0, 0, 2, 0, l, T.lshr(idx, l + 1, 32)])
    same = T.eq(node, root, 256)
    want = T.ite(same, 0, (1 << 32) - 1, 32)
    return f, eng, r, want, before, (msg, sig, pk), mlen, same


HEIGHTS_Q = (4, 6, 8, 10, 12, 14, 16, 18, 20, 30)
HEIGHTS_T = tuple(range(4, 31, 2))


def keygen(c, prog, fast, h, w=16):
    """root of the generated key; returns engine results for reuse"""
    hf = HFV()
    ln = X.wots_len(w)[3]
    eng = Engine(prog, X.opaque(prog, X.HASHES + X.WOTS + ('l_tree',)), unroll=1 << (h + 2))
    st = State()
    p, st = X.xmss_params(prog, eng, st, h, w)
    pk = eng.new_obj(st, 'pk', 64)
    sk = eng.new_obj(st, 'sk', 132)
    seed = eng.input_obj(st, 'SEED', 48)
    if fast:
        bds, st = bds_state(prog, eng, st, h)
        f = prog.find('xmssfast_Genkeypair')
        sg = 'ippppp'
        args = [hf, Ptr(p), Ptr(pk), Ptr(sk), Ptr(bds['state']), Ptr(seed)]
    else:
        bds = None
        f = prog.find('xmss_Genkeypair')
        sg = 'ipppp'
        args = [hf, Ptr(p), Ptr(pk), Ptr(sk), Ptr(seed)]
    if f is None or X.sig_of(f) != sg:
        raise T.Undecided('key generation not found with its documented parameters')
    r = eng.call(f, args, st)
    c.use(eng)
    if r is None:
        raise T.Undecided('key generation does not return')
    exp = SP.hashv('shake256', 96, SP.B(inb('SEED', 48), 48))
    skseed, skprf, pubseed = (T.extract(exp, 768, 256 * i, 256) for i in range(3))
    tree = X.Tree(hf, skseed, pubseed, h, ln)
    return dict(f=f, eng=eng, ret=r[0], st=r[1], pk=pk, sk=sk, seed=seed, params=p, bds=bds, tree=tree, hf=hf, skseed=skseed, skprf=skprf,
                pubseed=pubseed, ln=ln)


def bds_state(prog, eng, st, h, k=2, n=32):
    """a traversal state with buffers of exactly the sizes the algorithm needs
    (the sizes allocated by XmssFast::initialize_tree)"""
    B = {}
    B['stack'] = eng.new_obj(st, 'stack', (h + 1) * n, 0)
    B['levels'] = eng.new_obj(st, 'stacklevels', h + 1, 0)
    B['auth'] = eng.new_obj(st, 'auth', h * n, 0)
    B['keep'] = eng.new_obj(st, 'keep', (h >> 1) * n, 0)
    B['treehash'] = eng.new_obj(st, 'treehash', (h - k) * X.th_size(), 0)
    B['nodes'] = eng.new_obj(st, 'th_nodes', (h - k) * n, 0)
    B['retain'] = eng.new_obj(st, 'retain', ((1 << k) - k - 1) * n, 0)
    for i in range(h - k):
        st.mem[B['treehash']].write(X.th_size() * i + X.layout('treehash_inst.node')[0], 8, Ptr(B['nodes'], n * i))
    B['state'] = eng.new_obj(st, 'bds_state', X.layout('sizeof bds_state'))
    f = prog.find('xmss_set_bds_state')
    if f is None or X.sig_of(f) != 'ppippppp' + 'i':
        raise T.Undecided('xmss_set_bds_state not found with its documented parameters')
    r = eng.call(f, [Ptr(B['state']), Ptr(B['stack']), 0, Ptr(B['levels']), Ptr(B['auth']), Ptr(B['keep']), Ptr(B['treehash']),
                     Ptr(B['retain']), 0], st)
    return B, r[1]


@check('C05', 'proof', 'abstract interpretation of LLVM IR to canonical value terms, compared with RFC 8391 tree terms',
       'l_tree with abstract nodes; the root recomputed by xmss_Verifysig with abstract index, path and leaf for each tree height; the root '
       'computed by both key generators for each enumerated tree height with abstract seed - all compared with terms built from the '
       'RFC 8391 definition over opaque H, WOTS+ key and leaf contracts.')
def c05(c):
    prog = PR.load(['xmss'])
    for w in (2, 4, 16, 256):
        c.section('l-tree', 'l_tree w=%d' % w, ltree_obs, c, prog, w)
    ver = HEIGHTS_T if c.thorough else HEIGHTS_Q
    mods = X.opaque(prog, X.HASHES + X.WOTS + ('l_tree',))

    def v(h, w):
        f, eng, r, want, before, objs, mlen, same = verify_run(c, prog, h, w, mods)
        c.equal('root-from-path', 'xmss_Verifysig h=%d w=%d accepts exactly the RFC 8391 root' % (h, w), T.eq(r[0], 0, 32), same, 1, loc(f))
    for h in ver:
        c.section('root-from-path', 'h=%d' % h, v, h, 16)
    for w in (2, 4, 256):
        c.section('root-from-path', 'h=4 w=%d' % w, v, 4, w)

    def kg(fast, h, w=16):
        k = keygen(c, prog, fast, h, w)
        nm = '%s h=%d%s' % (prog.dem(k['f'].name).split('(')[0], h, '' if w == 16 else ' w=%d' % w)
        st = k['st']
        c.equal('tree-root', nm + ' public key root', st.mem[k['pk']].read(0, 32), k['tree'].root(), 256, loc(k['f']))
        c.equal('tree-root', nm + ' secret key root', st.mem[k['sk']].read(100, 32), k['tree'].root(), 256, loc(k['f']))
        for x in k['eng'].oob:
            c.bad('bounds', nm, '%s %s %s' % x, loc(k['f']))
    for fast in (False, True):
        for h in (4, 6, 8, 10, 12, 16) + ((14, 18) if c.thorough else ()):
            c.section('tree-root', 'key generation h=%d fast=%s' % (h, fast), kg, fast, h)
        for w in (2, 4, 256):
            c.section('tree-root', 'key generation h=4 w=%d fast=%s' % (w, fast), kg, fast, 4, w)
    c.assumptions += ['n = 32', 'H, PRF, WOTS+ operations taken by contract (C02, C04)',
                      'tree heights enumerated: verification %s, key generation up to %d' % (list(ver), 18 if c.thorough else 16)]


@check('C06', 'proof', 'abstract interpretation of LLVM IR to canonical value terms (verdict term), plus frame and bounds obligations',
       'xmss_Verifysig is interpreted for each tree height with abstract signature, public key, hash function and a message of symbolic '
       'length; its return value must be the term "0 if all 256 bits of the specified root equal the public key root else -1"; '
       'every access must fall inside the exact-size buffers and no byte of them may change.')
def c06(c):
    prog = PR.load(['xmss'])
    mods = X.opaque(prog, X.HASHES + X.WOTS + ('l_tree',))

    def v(h, w, ml=None):
        f, eng, r, want, before, objs, mlen, same = verify_run(c, prog, h, w, mods, ml)
        nm = 'xmss_Verifysig h=%d w=%d' % (h, w) + ('' if ml is None else ' message of %s bytes' % ml)
        c.equal('accept-iff-root', nm + ' returns 0', T.eq(r[0], 0, 32), same, 1, loc(f))
        c.equal('verdict', nm + ' result', r[0], want, 32, loc(f))
        for o in objs:
            if r[1].mem[o] is before[o]:
                c.ok('read-only', '%s leaves %s' % (nm, o.name), '', loc(f))
            elif isinstance(o.size, int):
                c.equal('read-only', '%s leaves %s' % (nm, o.name), r[1].mem[o].read(0, o.size), inb(o.name, o.size), 8 * o.size, loc(f))
            else:
                c.rope('read-only', '%s leaves %s' % (nm, o.name), eng.copy_out(r[1], Ptr(o), o.size),
                       (('s', o.size, T.seq(o.name), 0),), r[1], loc(f))
        c.true('bounds', nm + ' stays inside its buffers', not eng.oob, '; '.join('%s %s %s' % x for x in eng.oob[:3]), loc(f))
    mark = c.mark()
    for h in (HEIGHTS_T if c.thorough else HEIGHTS_Q):
        c.section('accept-iff-root', 'h=%d' % h, v, h, 16)
    for w in (2, 4, 256):
        c.section('accept-iff-root', 'h=4 w=%d' % w, v, 4, w)
    for ml in (0, 1, 31, 32, 33, 64, 100, 200, 1000, *T.huge('mlenh')) if c.undecided_since(mark) or c.thorough else (0, 1):
        c.section('accept-iff-root', 'message of %s bytes' % ml, v, 4, 16, ml)
    c.assumptions += ['n = 32', 'message length below 2^40', 'tree heights: even, up to 30']
