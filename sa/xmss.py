"""Opaque contracts of the header-level XMSS functions and the matching
specification terms.

Each model stands for a function whose own contract is decided elsewhere:
prf, hash_f, hash_h, h_msg by C02, wots_* by C04, l_tree by C05.  A model is
only installed when the function still has the parameter list of the header;
otherwise the analyser interprets the body."""
from . import terms as T, spec as SP
from .interp import Ptr, State, Engine, canon_segs, i2p
from .models import PRIMS
from .terms import S

N = 32
_fresh = [0]


def fun(name, w, *args):
    return T.from_atom(T.atom('fun', (name,) + args, w), 0, w)


def garbage(tag, nbytes):
    _fresh[0] += 1
    return T.var('clobbered:%s#%d' % (tag, _fresh[0]), 8 * nbytes)


# ------------------------------------------------------------------ spec terms
def PRF(hf, m, key):
    return fun('PRF', 256, hf, m, key)


def F(hf, m, pub, w):
    return fun('F', 256, hf, m, pub, tuple(w[:7]))


def H(hf, m, pub, w):
    return fun('H', 256, hf, m, pub, tuple(w[:7]))


def HMSG(hf, key, segs):
    return SP.hashv('HMSG', N, SP.B(hf, 4), SP.B(key, 96), *segs)


def CHAIN(hf, x, start, steps, pub, w):
    """steps applications of F from hash address start; w: address words 0..5"""
    if steps == 0:
        return x
    return fun('CHAIN', 256, hf, x, start, steps, pub, tuple(w[:6]))


def chain_by_F(hf, x, start, steps, pub, w):
    for j in range(start, start + steps):
        x = F(hf, x, pub, list(w[:6]) + [j])
    return x


def wots_len(w):
    lg = {2: 1, 4: 2, 16: 4, 256: 8}[w]
    l1 = 256 // lg
    l2 = 1
    while (w ** l2) <= l1 * (w - 1):
        l2 += 1
    return lg, l1, l2, l1 + l2


def digits(msg, w):
    """list of (value, width 32) base-w digits of a 32-byte message value plus checksum"""
    lg, l1, l2, ln = wots_len(w)
    ds = []
    for i in range(l1):
        byte, j = divmod(i, 8 // lg)
        d = T.extract(msg, 256, 8 * byte + 8 - lg * (j + 1), lg)
        ds.append(T.zext(d, lg, 32))
    cs = 0
    for d in ds:
        cs = T.add(cs, T.sub(w - 1, d, 32), 32)
    # left-aligned in len_2*lg bits, most significant digit first
    for i in range(l2):
        d = T.extract(cs, 32, lg * (l2 - 1 - i), lg)
        ds.append(T.zext(d, lg, 32))
    return ds


def WPK(hf, seed, pub, w, ln):
    return fun('WOTSPK', 256 * ln, hf, seed, pub, tuple(w[:5]))


def WSIG(hf, msg, sk, pub, w, ln):
    return fun('WOTSSIG', 256 * ln, hf, msg, sk, pub, tuple(w[:5]))


def WREC(hf, sig, msg, pub, w, ln):
    return fun('WOTSREC', 256 * ln, hf, sig, msg, pub, tuple(w[:5]))


def LTREE(hf, pk, pub, w):
    return fun('LTREE', 256, hf, pk, pub, tuple(w[:5]))


def ltree_by_H(hf, nodes, pub, w):
    nodes = list(nodes)
    h = 0
    while len(nodes) > 1:
        nx = []
        for i in range(len(nodes) // 2):
            nx.append(H(hf, T.concat([(nodes[2 * i], 256), (nodes[2 * i + 1], 256)]), pub, list(w[:5]) + [h, i]))
        if len(nodes) & 1:
            nx.append(nodes[-1])
        nodes = nx
        h += 1
    return nodes[0]


def leaf_addr(t, i):
    """address words 0..4 for OTS (t=0) / L-tree (t=1) of leaf i; layer and tree 0"""
    return [0, 0, 0, t, i]


def ots_seed(hf, sk_seed, i):
    a = SP.Adrs([0, 0, 0, 0, i, 0, 0, 0])
    return PRF(hf, a.bytes(), sk_seed)


def leaf(hf, sk_seed, pub, i, ln):
    s = ots_seed(hf, sk_seed, i)
    return LTREE(hf, WPK(hf, s, pub, leaf_addr(0, i), ln), pub, leaf_addr(1, i))


class Tree:
    """all nodes of the complete tree, by specification"""

    def __init__(self, hf, sk_seed, pub, h, ln=67):
        self.a = (hf, sk_seed, pub, ln)
        self.h = h
        self.memo = {}

    def node(self, lvl, idx):
        k = (lvl, idx)
        v = self.memo.get(k)
        if v is None:
            hf, sk, pub, ln = self.a
            if lvl == 0:
                v = leaf(hf, sk, pub, idx, ln)
            else:
                l, r = self.node(lvl - 1, 2 * idx), self.node(lvl - 1, 2 * idx + 1)
                v = H(hf, T.concat([(l, 256), (r, 256)]), pub, [0, 0, 0, 2, 0, lvl - 1, idx])
            self.memo[k] = v
        return v

    def root(self):
        return self.node(self.h, 0)

    def auth(self, i):
        return [self.node(l, (i >> l) ^ 1) for l in range(self.h)]


# ------------------------------------------------------------------ models
def words(eng, st, p):
    p = i2p(p)
    return [eng.load(st, Ptr(p.obj, T.add(p.off, 4 * i, 64) if not isinstance(p.off, int) else p.off + 4 * i), 4) for i in range(8)]


def setword(eng, st, p, i, v):
    p = i2p(p)
    eng.store(st, Ptr(p.obj, p.off + 4 * i), 4, v)


def put(eng, st, p, v, n):
    eng.copy_in(st, p, [('v', n, v)])


def other_n(eng, n):
    """the contracts are stated for n = 32; with another constant n the body is interpreted"""
    if n != N and not isinstance(n, int):
        raise T.Undecided('called with n = %r at %s' % (n, eng.where()))
    return n != N


def need_params(eng, st, params):
    params = i2p(params)
    o, n = layout('wots_params.n')
    n = eng.load(st, Ptr(params.obj, params.off + o), n)
    if n != N:
        raise T.Undecided('WOTS parameters with n = %r at %s' % (n, eng.where()))


def m_prf(eng, fr, ins, a, st):
    if other_n(eng, a[4]):
        return NotImplemented
    put(eng, st, a[1], PRF(a[0], eng.bytes_of(st, a[2], 32), eng.bytes_of(st, a[3], 32)), 32)
    return 0


def m_hashx(con, n):
    def m(eng, fr, ins, a, st):
        if other_n(eng, a[5]):
            return NotImplemented
        v = con(a[0], eng.bytes_of(st, a[2], n), eng.bytes_of(st, a[3], 32), words(eng, st, a[4]))
        put(eng, st, a[1], v, 32)
        setword(eng, st, a[4], 7, garbage('key-and-mask', 4))
        return 0
    return m


def m_hmsg(eng, fr, ins, a, st):
    if other_n(eng, a[6]) or isinstance(a[5], int) and a[5] != 96:
        return NotImplemented
    if a[5] != 96:
        raise T.Undecided('h_msg key length %r' % (a[5],))
    segs = canon_segs(eng.copy_out(st, a[2], a[3]), st)
    key = eng.bytes_of(st, a[4], 96)
    put(eng, st, a[1], HMSG(a[0], key, segs), 32)
    return 0


def m_chain(eng, fr, ins, a, st):
    hf, out, inp, start, steps, params, pub, adrs = a
    need_params(eng, st, params)
    x = eng.bytes_of(st, inp, 32)
    w = words(eng, st, adrs)
    v = CHAIN(hf, x, st.simp(start), st.simp(steps), eng.bytes_of(st, pub, 32), w)
    put(eng, st, out, v, 32)
    setword(eng, st, adrs, 6, garbage('hash-address', 4))
    setword(eng, st, adrs, 7, garbage('key-and-mask', 4))
    return None


_layout = {}
DEFAULT = {'sizeof wots_params': 28, 'sizeof xmss_params': 40, 'sizeof treehash_inst': 24, 'sizeof bds_state': 64, 'wots_params.len': (8, 4),
           'wots_params.len_1': (0, 4), 'wots_params.len_2': (4, 4), 'wots_params.n': (12, 4), 'wots_params.w': (16, 4), 'wots_params.log_w': (20, 4),
           'wots_params.keysize': (24, 4), 'treehash_inst.h': (0, 4), 'treehash_inst.next_idx': (4, 4), 'treehash_inst.stackusage': (8, 4),
           'treehash_inst.completed': (12, 1), 'treehash_inst.node': (16, 8), 'bds_state.stack': (0, 8), 'bds_state.stackoffset': (8, 4),
           'bds_state.stacklevels': (16, 8), 'bds_state.auth': (24, 8), 'bds_state.keep': (32, 8), 'bds_state.treehash': (40, 8),
           'bds_state.retain': (48, 8), 'bds_state.next_leaf': (56, 4)}


def layout(what):
    """size of a structure, or (offset, size) of a field, as the headers declare them"""
    if not _layout:
        from . import program as PR
        _layout.update(DEFAULT)
        prog = PR.load(['layout'], need=False)
        if not prog.failed:
            eng = Engine(prog, {})
            def get(n):
                f = prog.find(n)
                v = eng.call(f, [], State())[0]
                if not isinstance(v, int):
                    raise T.Undecided('layout of %s' % n)
                return v
            for k in DEFAULT:
                if k.startswith('sizeof '):
                    _layout[k] = get('vsa_sizeof_' + k[7:])
                else:
                    a, b = k.split('.')
                    _layout[k] = (get('vsa_off_%s_%s' % (a, b)), get('vsa_size_%s_%s' % (a, b)))
    return _layout[what]


def wlen(eng, st, params):
    """WOTS length from a wots_params structure"""
    params = i2p(params)
    o, n = layout('wots_params.len')
    v = eng.load(st, Ptr(params.obj, params.off + o), n)
    if not isinstance(v, int):
        raise T.Undecided('wots length %r' % (v,))
    return v


def clob3(eng, st, adrs):
    for i in (5, 6, 7):
        setword(eng, st, adrs, i, garbage('address', 4))


def m_wpk(eng, fr, ins, a, st):
    hf, pk, sk, params, pub, adrs = a
    need_params(eng, st, params)
    ln = wlen(eng, st, params)
    v = WPK(hf, eng.bytes_of(st, sk, 32), eng.bytes_of(st, pub, 32), words(eng, st, adrs), ln)
    put(eng, st, pk, v, 32 * ln)
    clob3(eng, st, adrs)
    return None


def m_wsig(eng, fr, ins, a, st):
    hf, sig, msg, sk, params, pub, adrs = a
    need_params(eng, st, params)
    ln = wlen(eng, st, params)
    v = WSIG(hf, eng.bytes_of(st, msg, 32), eng.bytes_of(st, sk, 32), eng.bytes_of(st, pub, 32), words(eng, st, adrs), ln)
    put(eng, st, sig, v, 32 * ln)
    clob3(eng, st, adrs)
    return None


def m_wrec(eng, fr, ins, a, st):
    hf, pk, sig, msg, params, pub, adrs = a
    need_params(eng, st, params)
    ln = wlen(eng, st, params)
    v = WREC(hf, eng.bytes_of(st, sig, 32 * ln), eng.bytes_of(st, msg, 32), eng.bytes_of(st, pub, 32), words(eng, st, adrs), ln)
    put(eng, st, pk, v, 32 * ln)
    clob3(eng, st, adrs)
    return None


def m_ltree(eng, fr, ins, a, st):
    hf, params, leaf_, pk, pub, adrs = a
    need_params(eng, st, params)
    ln = wlen(eng, st, params)
    v = LTREE(hf, eng.bytes_of(st, pk, 32 * ln), eng.bytes_of(st, pub, 32), words(eng, st, adrs))
    put(eng, st, pk, garbage('l_tree', 32 * ln), 32 * ln)
    put(eng, st, leaf_, v, 32)
    clob3(eng, st, adrs)
    return None


I, P = 'i', 'p'
SIGS = {'prf': (m_prf, 'ipppi'), 'hash_f': (m_hashx(F, 32), 'ippppi'), 'hash_h': (m_hashx(H, 64), 'ippppi'),
        'h_msg': (m_hmsg, 'ippipii'), 'gen_chain': (m_chain, 'ippiippp'),
        'wots_pkgen': (m_wpk, 'ippppp'), 'wots_sign': (m_wsig, 'ipppppp'), 'wots_pkFromSig': (m_wrec, 'ipppppp'),
        'l_tree': (m_ltree, 'ippppp')}


def sig_of(f):
    f.parse()
    return ''.join('p' if t[0] == 'ptr' else 'i' if t[0] == 'i' else '?' for _, t, _ in f.params)


def opaque(prog, names):
    out = dict(PRIMS)
    for n in names:
        m, s = SIGS[n]
        f = prog.find(n)
        if f is not None and sig_of(f) == s:
            out[n] = m
    return out


HASHES = ('prf', 'hash_f', 'hash_h', 'h_msg')
WOTS = ('wots_pkgen', 'wots_sign', 'wots_pkFromSig')


# ------------------------------------------------------------------ parameter objects
def wots_params(prog, eng, st, w):
    o = eng.new_obj(st, 'wots_params', layout('sizeof wots_params'))
    r = eng.call(prog.find('wots_set_params'), [Ptr(o), 32, w], st)
    return o, r[1]


def xmss_params(prog, eng, st, h, w=16, k=2):
    o = eng.new_obj(st, 'xmss_params', layout('sizeof xmss_params'))
    r = eng.call(prog.find('xmss_set_params'), [Ptr(o), 32, h, w, k], st)
    return o, r[1]


def th_size():
    return layout('sizeof treehash_inst')


def th_reset(st, B, h, k=2):
    """all treehash instances idle: height i, nothing on the stack, completed"""
    m = st.mem[B['treehash']]
    for i in range(h - k):
        for f, v in (('h', i), ('stackusage', 0), ('completed', 1)):
            o, n = layout('treehash_inst.' + f)
            m.write(th_size() * i + o, n, v)


def struct_fields(name, size):
    """(offset, length) of the meaningful bytes of a traversal structure"""
    if name == 'treehash':
        return [(i + layout('treehash_inst.' + f)[0], layout('treehash_inst.' + f)[1]) for i in range(0, size, th_size())
                for f in ('h', 'next_idx', 'stackusage', 'completed', 'node')]
    if name == 'state':
        return [layout('bds_state.' + f) for f in ('stack', 'stackoffset', 'stacklevels', 'auth', 'keep', 'treehash', 'retain', 'next_leaf')]
    return [(0, size)]
