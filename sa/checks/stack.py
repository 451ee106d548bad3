"""C21: stack use does not depend on caller-sized input."""
from .. import terms as T, program as PR, spec as SP, xmss as X, klass as K, text as TX, rand as R
from ..core import check
from ..interp import Engine, State, Ptr
from ..models import PRIMS
from ..terms import Undecided, S
from .hashes import loc
from .keccak import m_keccakf
from .verify import keygen, bds_state
from .wots import HFV
from . import sign as SG

BIG = 1 << 20
LENS = (0, 1, 33, 137, 1024, 5000, 20000)
HUGE = 10     # times the largest length, to confirm growth


class Sites:
    """dynamic stack allocations of the repository's functions"""

    def __init__(self):
        self.all, self.seen = {}, set()

    def program(self, prog):
        for m in prog.mods:
            for n, f in m.funcs.items():
                f.parse()
                l = f.loc()
                if not l or not l[0] or not l[0].startswith(PR.REPO):
                    continue
                for i in f.insts():
                    if i.op == 'alloca' and i.ops and i.ops[0][0] != 'k':
                        self.all[id(i)] = (prog.base(n), m.loc(i.dbg) if i.dbg else l)

    def visit(self, eng):
        for e in eng.events:
            if e[0] == 'vla':
                self.seen.add(e[4])


SITES = None


def sized(c, nm, eng, names=('MLEN',), l=None):
    """the allocations of a run whose lengths are the symbolic inputs `names`"""
    SITES.visit(eng)
    c.use(eng)
    n = 0
    bad = False
    done = set()
    for e in eng.events:
        if e[0] != 'vla':
            continue
        _, size, fn, site, key, pc = e
        n += 1
        if isinstance(size, int):
            if size >= BIG and (key, size) not in done:
                done.add((key, size))
                bad = True
                c.bad('allocation-size', '%s: %s' % (nm, eng.prog.base(fn)), 'allocates %d bytes of stack' % size, site)
            continue
        if (key, size) in done:
            continue
        done.add((key, size))
        worst = None
        for v in (1 << 24, (1 << 31) - 1, 1 << 22):
            try:
                for val in R.valuations([size], 6, {x: v for x in names}, tuple(x for x in pc if isinstance(x, S)), seed0=c.seed):
                    k = val.val(size)
                    if BIG <= k < 1 << 40 and all(val.val(x) & 1 for x in pc if isinstance(x, S)):
                        worst = (v, k)
                        break
            except R.CantEval:
                continue
            if worst:
                break
        cons = '%s: %s' % (nm, eng.prog.base(fn))
        if worst:
            bad = True
            c.bad('allocation-size', cons, 'allocates %d bytes of stack for an input of %d bytes' % (worst[1], worst[0]), site)
        elif any(mentions(size, x) for x in names):
            c.und('allocation-size', cons, 'size depends on the input length but no large value was found: %r' % (size,), site)
        else:
            c.ok('allocation-size', cons, 'bounded by parameters', site)
    if not bad:
        c.ok('allocation-size', '%s: %d dynamic allocations, none sized by the caller' % (nm, n), 'peak %d bytes' % eng.peak, l)


def mentions(term, name):
    b, k = R.reach_atoms([term]), None
    seen = set()
    work = [term]
    while work:
        x = work.pop()
        if isinstance(x, S):
            for _, _, sl in x.ps:
                for q in sl:
                    work.append(T.ATOMS[q[0]])
        elif hasattr(x, 'kind') and hasattr(x, 'args'):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind == 'in' and name in x.args:
                return True
            work.append(x.args)
        elif isinstance(x, (tuple, frozenset)):
            work.extend(x)
    return False


def growth(c, nm, run, l=None, lens=LENS):
    """run(n) -> Engine, for concrete lengths: the peak must stop growing"""
    peaks = []
    for n in lens:
        eng = run(n)
        SITES.visit(eng)
        c.use(eng)
        peaks.append((eng.peak, n, eng.peak_at))
    a, b = peaks[-2], peaks[-1]
    if b[0] - a[0] > 256:
        eng = run(HUGE * b[1])
        h = (eng.peak, HUGE * b[1], eng.peak_at)
        if h[0] - b[0] > 4 * (b[0] - a[0]) :
            c.bad('peak-growth', nm, 'peak stack use is %d bytes for %d-byte input, %d for %d, %d for %d' %
                  (a[0], a[1], b[0], b[1], h[0], h[1]), h[2])
            return
    c.ok('peak-growth', nm, 'peak %s' % ', '.join('%d bytes at length %d' % (p, n) for p, n, _ in peaks), l)


def height_growth(c, nm, peaks, l):
    """peaks: {height: bytes}, heights in steps of 2: no faster than linear"""
    hs = sorted(peaks)
    d = [peaks[b] - peaks[a] for a, b in zip(hs, hs[1:])]
    if len(d) < 2:
        c.und('height-growth', nm, 'too few heights', l)
        return
    # differences that keep growing by a factor: exponential
    if all(y >= 2 * x and y - x > 256 for x, y in zip(d, d[1:])) and d[-1] > 1024:
        c.bad('height-growth', nm, 'peak stack use multiplies with the height: %s' % peaks, l)
    else:
        c.ok('height-growth', nm, 'peak by height: %s' % peaks, l)


# ------------------------------------------------------------------ cases
def core_hash_case(c, prog, name, hf):
    f = prog.find(name)
    if f is None:
        raise Undecided('%s not found' % name)
    ml = T.var('MLEN', 64, hi=(1 << 40) - 1)
    eng = Engine(prog, PRIMS)
    st = State()
    out = eng.new_obj(st, 'out', 64)
    m = eng.input_obj(st, 'MSG', ml)
    key = eng.input_obj(st, 'KEY', 96)
    sg = X.sig_of(f)
    if name == 'h_msg' and sg == 'ippipii':
        a = [hf, Ptr(out), Ptr(m), ml, Ptr(key), 96, 32]
    elif name == 'core_hash' and sg == 'ipipipii':
        a = [hf, Ptr(out), 2, Ptr(key), 96, Ptr(m), ml, 32]
    else:
        raise Undecided('%s has changed parameters' % name)
    try:
        eng.call(f, a, st)
    finally:
        sized(c, '%s[%d]' % (name, hf), eng, l=loc(f))


def conc_core_hash(c, prog, hf):
    f = prog.find('h_msg')
    if f is None or X.sig_of(f) != 'ippipii':
        raise Undecided('h_msg has changed parameters')

    def run(n):
        eng = Engine(prog, PRIMS, unroll=1000000)
        eng.max_depth = 3000
        st = State()
        out, m, key = eng.new_obj(st, 'out', 64), eng.input_obj(st, 'MSG', n), eng.input_obj(st, 'KEY', 96)
        eng.call(f, [hf, Ptr(out), Ptr(m), n, Ptr(key), 96, 32], st)
        return eng
    growth(c, 'h_msg[%d]' % hf, run, loc(f))


RP = 'qrllib::rust_wrapper::xmss_alt::fips202::'


def sponge(c, prog, name, by_out, rust=False):
    f = prog.find((RP if rust else '') + name)
    if f is None or X.sig_of(f) != ('pipi' if not rust else 'pipipi'[:2] + 'ipii'):
        raise Undecided('%s not found with its documented parameters' % name)
    pf = prog.find((RP + 'keccak_f1600_state_permute') if rust else 'KeccakF1600_StatePermute')
    nm = ('Rust ' if rust else 'C++ ') + name

    def run(n):
        eng = Engine(prog, {pf.name: m_keccakf} if pf is not None else {}, unroll=1000000)
        eng.max_depth = 3000
        st = State()
        ol, il = (n, 10) if by_out else (32, n)
        o, m = eng.new_obj(st, 'out', ol), eng.input_obj(st, 'M', il)
        eng.call(f, [Ptr(o), ol, ol, Ptr(m), il, il] if rust else [Ptr(o), ol, Ptr(m), il], st)
        return eng
    growth(c, '%s by %s length' % (nm, 'output' if by_out else 'input'), run, loc(f), LENS if not by_out else (0, 1, 33, 200, 1024, 2048, 8192))


def verify_case(c, prog, h, w):
    from .verify import verify_run
    mods = X.opaque(prog, [x for x in X.HASHES if x != 'h_msg'] + list(X.WOTS) + ['l_tree'])
    f = prog.find('xmss_Verifysig')
    f, eng, r, want, before, objs, mlen, same = verify_run(c, prog, h, w, mods)
    sized(c, 'xmss_Verifysig h=%d' % h, eng, ('mlen',), loc(f))
    return eng.peak


def sign_case(c, prog, fast, h, mlen=None):
    """key generation, then one signature of a message of symbolic length"""
    k = keygen(c, prog, fast, h)
    SITES.visit(k['eng'])
    kp = k['eng'].peak
    ml = T.var('MLEN', 64, hi=(1 << 40) - 1) if mlen is None else mlen
    eng = Engine(prog, X.opaque(prog, [x for x in X.HASHES if x != 'h_msg'] + list(X.WOTS) + ['l_tree']), unroll=1 << (h + 2))
    f = SG.signer(prog, fast)
    try:
        st = k['st']
        for i in range(8 if fast and h < 8 else 1):
            r = SG.run_sign(eng, prog, fast, st, k['hf'], k['params'], k['sk'], k['bds']['state'] if fast else None, h, k['ln'], ml)
            st = r[3][1]
    finally:
        sized(c, '%s h=%d' % (SG.NAMES[fast], h), eng, l=loc(f))
    return kp, eng.peak


def internals(c, prog):
    """the hash and WOTS+ functions themselves (fixed-size input): their dynamic allocations are constants"""
    for w in (16, 4):
        ln = X.wots_len(w)[3]
        for nm in ('hash_f', 'hash_h', 'wots_sign', 'wots_pkFromSig', 'wots_pkgen', 'l_tree'):
            f = prog.find(nm)
            if f is None or X.sig_of(f) != X.SIGS[nm][1]:
                c.und('allocation-size', nm, 'not found with its documented parameters')
                continue

            def one():
                eng = Engine(prog, X.opaque(prog, [x for x in X.HASHES if x != nm] + ['gen_chain']))
                st = State()
                wp, st = X.wots_params(prog, eng, st, w)
                I = lambda n, z: Ptr(eng.input_obj(st, n, z))
                O = lambda n, z: Ptr(eng.new_obj(st, n, z))
                ad, pub = I('ADRS', 32), I('PUB', 32)
                a = {'hash_f': lambda: [0, O('o', 32), I('M', 32), pub, ad, 32], 'hash_h': lambda: [0, O('o', 32), I('M', 64), pub, ad, 32],
                     'wots_pkgen': lambda: [0, O('o', 32 * ln), I('SK', 32), Ptr(wp), pub, ad],
                     'wots_sign': lambda: [0, O('o', 32 * ln), I('D', 32), I('SK', 32), Ptr(wp), pub, ad],
                     'wots_pkFromSig': lambda: [0, O('o', 32 * ln), I('SIG', 32 * ln), I('D', 32), Ptr(wp), pub, ad],
                     'l_tree': lambda: [0, Ptr(wp), O('o', 32), I('PK', 32 * ln), pub, ad]}[nm]()
                eng.call(f, a, st)
                sized(c, '%s w=%d' % (nm, w), eng, l=loc(f))
            c.section('allocation-size', '%s w=%d' % (nm, w), one)


def class_case(c, fast):
    a = K.Api()
    from .keys import make, sigfn, CLS
    b, ex = make(a, fast, 4)
    if b is None:
        raise Undecided('construction refused')
    ml = T.var('MLENC', 64, 1, (1 << 40) - 1)
    o = a.out(4 + 32 + 67 * 32 + 32 * 4)
    m = a.inp('MSG', ml)
    try:
        a.call('vsa_sign', b, m, ml, o)
    finally:
        sized(c, CLS[fast] + '::sign', a.eng, ('MLENC',), sigfn(a, fast))


def class_verify(c, h):
    a = K.Api()
    f = a.prog.find('XmssBase::verify')
    ml = T.var('MLENC', 64, 1, (1 << 40) - 1)
    n = 4 + 32 + 67 * 32 + 32 * h
    m, s, p = a.inp('MSG', ml), a.inp('SIG', n), a.inp('PK', 67)
    a.st.mem[p.obj].write(0, 3, 1 | (h >> 1) << 8)
    try:
        a.call('vsa_verify', m, ml, s, n, p, 67, 16)
    finally:
        sized(c, 'XmssBase::verify h=%d' % h, a.eng, ('MLENC',), loc(f) if f else None)


def class_sizes(c, what):
    """public class functions over vectors of any concrete size"""
    def run(n):
        a = K.Api(unroll=1000000)
        a.eng.max_depth = 3000
        if what == 'sign':
            from .keys import make
            b, ex = make(a, True, 4)
            a.call('vsa_sign', b, a.inp('MSG', n), n, a.out(4 + 32 + 67 * 32 + 32 * 4))
        elif what == 'verify message':
            p = a.inp('PK', 67)
            a.st.mem[p.obj].write(0, 3, 1 | 2 << 8)
            k = 4 + 32 + 67 * 32 + 32 * 4
            a.call('vsa_verify', a.inp('MSG', n), n, a.inp('SIG', k), k, p, 67, 16)
        elif what == 'verify signature':
            a.call('vsa_verify', a.inp('MSG', 3), 3, a.inp('SIG', n), n, a.inp('PK', 67), 67, 16)
        elif what == 'verify key':
            a.call('vsa_verify', a.inp('MSG', 3), 3, a.inp('SIG', 2308), 2308, a.inp('PK', n), n, 16)
        elif what == 'getAddress':
            a.call('vsa_addr_of', a.inp('PK', n), n, a.out(64))
        elif what == 'addressIsValid':
            a.call('vsa_addr_valid', a.inp('ADDR', n), n)
        elif what == 'constructor seed':
            a.call('vsa_fast_new', a.inp('SEED', n), n, 4, 0, 0)
        elif what == 'constructor extended seed':
            a.call('vsa_fast_ext', a.inp('SEED', n), n)
        elif what == 'descriptor':
            a.call('vsa_desc_from', a.inp('D', n), n, a.out(16), a.out(3))
        return a.eng
    growth(c, 'class %s' % what, run)


TEXTS = (('vsa_bin2hstr', 'bin2hstr', 'b'), ('vsa_sbin2hstr', 'bin2hstr', 'b'), ('vsa_hstr2bin', 'hstr2bin', 't'), ('vsa_str2bin', 'str2bin', 't'),
         ('vsa_bin2mnemonic', 'bin2mnemonic', 'b'), ('vsa_mnemonic2bin', 'mnemonic2bin', 'm'))


def text_case(c, drv, fn, kind):
    def run(n):
        a = TX.Api(table='mnemonic' in fn)
        a.eng.max_depth = 3000
        if kind == 't':
            n += n & 1
            args = [a.inp('text', n, int.from_bytes(b'a' * n, 'little')), n, a.out(n + 16)]
        elif kind == 'm':
            k = n // 16
            k += k & 1
            tx = ' '.join(['aback'] * k).encode()
            args = [a.inp('text', len(tx), int.from_bytes(tx, 'little')), len(tx), a.out(n + 16)]
        else:
            n -= n % 3
            args = [a.inp('X', n, 0), n] + ([0] if 'hstr' in fn else []) + [a.out(8 * n + 64)]
        a.call(drv, *args)
        return a.eng
    growth(c, fn, run, lens=(0, 33, 300, 1200, 2400) if kind != 'm' else (0, 33, 300, 2400, 9600))


def seeds_case(c):
    def by_seed(n):
        a = TX.Api(table=False)
        a.eng.max_depth = 3000
        a.call('vsa_chain_seed', a.inp('SEED', n), n, 1, 2, a.out(64), a.out(16))
        return a.eng
    growth(c, 'getHashChainSeed by seed length', by_seed)

    def by_count(n):
        a = TX.Api(table=False)
        a.eng.max_depth = 3000
        a.call('vsa_chain_seed', a.inp('SEED', 32), 32, 1, n, a.out(32 * n), a.out(8 * n))
        return a.eng
    growth(c, 'getHashChainSeed by count', by_count, lens=(0, 2, 64, 256, 512))


def vector_hash(c, drv, fn):
    def run(n):
        a = TX.Api(table=False)
        a.eng.max_depth = 3000
        args = [a.inp('X', n), n]
        if 'shake' in fn:
            args = [32] + args
        if fn == 'sha2_256_n':
            args.append(2)
        a.call(drv, *(args + [a.out(64)]))
        return a.eng
    growth(c, fn + ' of a vector', run)
    if 'shake' in fn:
        def out(n):
            a = TX.Api(table=False)
            a.call(drv, n, a.inp('X', 10), 10, a.out(n))
            return a.eng
        growth(c, fn + ' of a vector by output length', out, lens=(0, 32, 200, 1000, 4000, 16000))
    else:
        def cnt(n):
            a = TX.Api(table=False)
            a.call(drv, a.inp('X', 10), 10, n, a.out(64))
            return a.eng
        if fn == 'sha2_256_n':
            growth(c, fn + ' by count', cnt, lens=(1, 2, 50, 200, 400))



def pq_cases(c):
    from . import pq
    prog = pq.program()
    SITES.program(prog)
    k = pq.consts(prog)
    lens = (0, 1, 33, 1024, 5000, 12000)

    def sign(n):
        cs = pq.Case(prog, k)
        d = cs.ready('vsa_dil_new', cs.a.inp('PK', k['dpk']), k['dpk'], cs.a.inp('SK', k['dsk']), k['dsk'])
        cs.call('vsa_dil_sign', d, cs.a.inp('MSG', n), n, cs.a.out(n + 8192))
        return cs.a.eng

    def opn(n):
        cs = pq.Case(prog, k, 0)
        n += k['dsig']
        cs.call('vsa_dil_open', cs.a.inp('SM', n), n, cs.a.inp('PK', k['dpk']), k['dpk'], 0, cs.a.out(n + 16), cs.a.out(8))
        return cs.a.eng

    def split(which):
        def run(n):
            cs = pq.Case(prog, k)
            n += k['dsig']
            cs.call('vsa_dil_' + which, cs.a.inp('SM', n), n, cs.a.out(n + 8192))
            return cs.a.eng
        return run

    def wrong(drv):
        def run(n):
            cs = pq.Case(prog, k)
            if drv.startswith('vsa_kyb'):
                b = pq.kyb_new(cs, k)
                cs.call(drv, b, cs.a.inp('ARG', n), n)
            else:
                cs.call(drv, cs.a.inp('PK', n), n, cs.a.inp('SK', n), n)
            return cs.a.eng
        return run
    for nm, run in (('Dilithium::sign', sign), ('Dilithium::sign_open', opn), ('Dilithium::extract_message', split('msg')), ('Dilithium::extract_signature', split('sig')),
                    ('Dilithium::Dilithium', wrong('vsa_dil_new')), ('Kyber::kem_encode', wrong('vsa_kyb_enc')), ('Kyber::kem_decode', wrong('vsa_kyb_dec'))):
        c.section('peak-growth', nm, growth, c, nm, run, pq.L(prog, nm), lens)


def js_cases(c):
    """the JavaScript XMSS binding by length of its arguments, and the Dilithium binding by length of its hexadecimal text"""
    from . import binding as BD, pq
    SITES.program(BD.program())
    b = BD.binding()

    def data(name, arg, out):
        def run(n):
            a = BD.api()
            a.eng.max_depth = 3000
            b.call(a, '', name, *arg(a, n), out=out(n))
            return a.eng
        return run
    x = lambda a, n: ((a.inp('X', n - n % 3, 0), n - n % 3),)
    t = lambda a, n: ((a.inp('T', n & ~1, int.from_bytes(b'a' * (n & ~1), 'little')), n & ~1),)
    for nm, arg, out in (('sha2_256', x, lambda n: 64), ('shake128', lambda a, n: (32,) + x(a, n), lambda n: 64), ('bin2hstr', x, lambda n: 2 * n + 16),
                         ('bin2mnemonic', x, lambda n: 16 * n + 16), ('str2bin', t, lambda n: n + 16), ('hstr2bin', t, lambda n: n + 16),
                         ('getAddress', t, lambda n: 128), ('getAddressRaw', x, lambda n: 128), ('validateAddress', t, lambda n: 0), ('validateAddressRaw', x, lambda n: 0),
                         ('getHeight', t, lambda n: 0)):
        c.section('peak-growth', 'JS ' + nm, growth, c, 'JS ' + nm, data(nm, arg, out), None, (0, 33, 300, 1200, 2400))

    def sign(basic):
        def run(n):
            a = BD.api()
            o = a.inp('SEED', 48), 48
            args = [o, 4, 0] + ([0, 16] if basic else [])
            cls = 'XmssBasic' if basic else 'Xmss'
            v, ex, _, obj = b.call(a, cls, 'fromParameters', *args)
            if v is None:
                raise Undecided('no key')
            b.call(a, cls, 'sign', (a.inp('MSG', n), n), self_=obj, out=8192)
            return a.eng
        return run
    for basic in (False, True):
        c.section('peak-growth', 'JS sign', growth, c, 'JS %s.sign' % ('XmssBasic' if basic else 'Xmss'), sign(basic), None, (0, 33, 300, 1200, 5000))
    jp = pq.js_pq_program()
    SITES.program(jp)
    k = pq.consts(pq.program())

    def opn(n):
        cs = pq.Case(jp, k, 0, base=TX.Api)
        z = lambda m: (cs.a.text(bytes(m).hex().encode()), 2 * m)
        n += k['dsig']
        cs.call('vsa_js_open', *((cs.a.text(b''), 0) + z(n) + z(k['dpk']) + (cs.a.out(4 * n),)))
        return cs.a.eng
    c.section('peak-growth', 'JS Dilithium.sign_open', growth, c, 'JS Dilithium.sign_open', opn, None, (0, 33, 300, 900))


def sha_case(c):
    """sha2_256 over pointers"""
    prog = K.program()
    f = next((g for g in prog.findall('sha2_256') if X.sig_of(g) == 'ppi'), None)
    if f is None:
        raise Undecided('sha2_256 not found with its documented parameters')

    def run(n):
        eng = Engine(prog, {k: v for k, v in PRIMS.items() if k != 'sha2_256'}, unroll=1000000)
        eng.max_depth = 3000
        st = State()
        o, m = eng.new_obj(st, 'out', 32), eng.input_obj(st, 'M', n)
        eng.call(f, [Ptr(o), Ptr(m), n], st)
        return eng
    growth(c, 'sha2_256', run, loc(f))


def random_case(c):
    from .text import Source

    def run(which):
        def go(n):
            a = TX.Api(table=False, models=Source().models())
            size, ent = (n, 3) if which == 'size' else (48, n)
            a.call('vsa_random_seed', size, a.inp('ENT', ent), ent, a.out(size + 16))
            return a.eng
        return go
    growth(c, 'getRandomSeed by size', run('size'))
    growth(c, 'getRandomSeed by entropy length', run('entropy'))


# ------------------------------------------------------------------ recursion without end
def must_call(f):
    """functions called on every path from the entry to any exit"""
    f.parse()
    by = {}
    for i in f.insts():
        if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
            by.setdefault(i.x['callee'][1], set()).add(i.bb.name)
    ends = {'ret', 'resume', 'unreachable'}
    out = set()
    for g, blocks in by.items():
        if g.startswith('llvm.'):
            continue
        seen, todo, free = set(), [f.entry], False
        while todo and not free:
            b = todo.pop()
            if b in seen or b in blocks:
                continue
            seen.add(b)
            free = f.blocks[b].insts[-1].op in ends
            todo += f.blocks[b].succs
        if not free:
            out.add(g)
    return out


def endless(c, label, prog):
    """no function of the library calls itself, directly or through others, on every one of its paths"""
    fs = {}
    for m in prog.mods:
        for n, f in m.funcs.items():
            f.parse()
            l = f.loc()
            if f.blocks and l and l[0] and l[0].startswith(PR.REPO):
                fs.setdefault(n, f)
    mc = {n: {g for g in must_call(f) if g in fs} for n, f in fs.items()}
    bad = set()
    for n in fs:
        seen, todo = set(), list(mc[n])
        while todo:
            g = todo.pop()
            if g not in seen:
                seen.add(g)
                todo += mc[g]
        if n in seen:
            bad.add(n)
    for n in sorted(bad):
        c.bad('recursion-ends', prog.dem(n), 'calls itself again on every path, whatever its arguments: stack use without bound', fs[n].loc())
    c.ok('recursion-ends', '%s: %d functions, of which %d call themselves on every path' % (label, len(fs), len(bad)))


@check('C21', 'other', 'abstract interpretation of LLVM IR with stack accounting: size terms of every dynamic stack allocation, peak over call chains',
       'Every run sums the stack of the active call chain. With message length a symbolic input, no dynamic stack allocation reached from '
       'hashing, signing, verification (core and classes) may have a size that can become large with it; for concrete input lengths up to '
       '20000 bytes the peak of hashes, classes, text codecs must stop growing (this also covers recursion); over tree heights the peak of '
       'key generation, signing and verification must not multiply; no function may call itself on every path.  Every dynamic allocation of the C++ sources must have been reached.')
def c21(c):
    global SITES
    SITES = Sites()
    prog = PR.load(['xmss'])
    SITES.program(prog)
    for hf in (0, 1, 2):
        c.section('allocation-size', 'h_msg[%d]' % hf, core_hash_case, c, prog, 'h_msg', hf)
        c.section('peak-growth', 'h_msg[%d]' % hf, conc_core_hash, c, prog, hf)
    for n in ('shake128', 'shake256'):
        for o in (False, True):
            c.section('peak-growth', n, sponge, c, prog, n, o)
            c.section('peak-growth', 'Rust ' + n, lambda: sponge(c, PR.load_rust(), n, o, True))
    c.section('allocation-size', 'internals', internals, c, prog)
    vp = {}
    for h in (4, 6, 8, 10, 20, 30):
        p = c.section('allocation-size', 'xmss_Verifysig h=%d' % h, verify_case, c, prog, h, 16)
        if p is not None and h <= 10:
            vp[h] = p
    f = prog.find('xmss_Verifysig')
    height_growth(c, 'xmss_Verifysig', vp, loc(f) if f else None)
    for fast in (True, False):
        ks, ss = {}, {}
        for h in (4, 6, 8) + ((10,) if c.thorough else ()):
            r = c.section('allocation-size', '%s h=%d' % (SG.NAMES[fast], h), sign_case, c, prog, fast, h)
            if r:
                ks[h], ss[h] = r
        f = SG.signer(prog, fast)
        height_growth(c, SG.NAMES[fast], ss, loc(f) if f else None)
        height_growth(c, 'key generation of %s' % SG.NAMES[fast], ks, loc(f) if f else None)
        c.section('allocation-size', 'class', class_case, c, fast)
    kp = K.program()
    SITES.program(kp)
    for h in (4, 10):
        c.section('allocation-size', 'XmssBase::verify', class_verify, c, h)
    for wh in ('sign', 'verify message', 'verify signature', 'verify key', 'getAddress', 'addressIsValid', 'constructor seed',
               'constructor extended seed', 'descriptor'):
        c.section('peak-growth', wh, class_sizes, c, wh)
    tp = TX.program()
    SITES.program(tp)
    for t in TEXTS:
        c.section('peak-growth', t[1], text_case, c, *t)
    c.section('peak-growth', 'getHashChainSeed', seeds_case, c)
    for t in (('vsa_vshake128', 'shake128'), ('vsa_vshake256', 'shake256'), ('vsa_vsha2', 'sha2_256'), ('vsa_vsha2n', 'sha2_256_n')):
        c.section('peak-growth', t[1], vector_hash, c, *t)
    c.section('peak-growth', 'sha2_256', sha_case, c)
    c.section('peak-growth', 'getRandomSeed', random_case, c)
    c.section('peak-growth', 'Dilithium and Kyber', pq_cases, c)
    c.section('peak-growth', 'JavaScript binding', js_cases, c)

    def ends():
        from . import pq, binding as BD, pool
        for label, p in (('core and classes', kp), ('text', tp), ('Dilithium and Kyber', pq.program()), ('JavaScript Dilithium and Kyber', pq.js_pq_program()),
                         ('JavaScript XMSS', BD.program()), ('pool', pool.program()), ('Rust', PR.load_rust())):
            endless(c, label, p)
    c.section('recursion-ends', 'library', ends)
    names = {}
    for k, (fn, l) in SITES.all.items():
        e = names.setdefault((fn, l), [0, 0])
        e[0] += 1
        e[1] += k in SITES.seen
    for (fn, l), (n, s) in sorted(names.items()):
        if s:
            c.ok('site-reached', '%s line %s' % (fn, l[1]), '', l)
        else:
            c.und('site-reached', '%s line %s' % (fn, l[1]), 'no analysed run reaches this dynamic allocation', l)
    c.assumptions += ['message length below 2^40', 'stack frames as laid out by clang before inlining; fixed-size frames are counted, not limited']
