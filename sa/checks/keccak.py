"""C01: SHAKE against FIPS 202."""
from .. import terms as T, spec as SP, program as PR
from ..core import check
from ..interp import Engine, State, Ptr, DEAD, CMem
from ..terms import S, Top, Undecided
from .hashes import loc, constants
import random

# ---------------------------------------------------------------- FIPS 202, section 3.2, written from the standard


def rc_bits():
    """algorithm 5: rc(t)"""
    out = []
    R = [1, 0, 0, 0, 0, 0, 0, 0]
    out.append(1)
    for t in range(1, 255):
        R = [0] + R
        R[0] ^= R[8]
        R[4] ^= R[8]
        R[5] ^= R[8]
        R[6] ^= R[8]
        R = R[:8]
        out.append(R[0])
    return out


_RCB = rc_bits()


def round_constant(ir):
    rc = 0
    for j in range(7):
        if _RCB[(j + 7 * ir) % 255]:
            rc |= 1 << ((1 << j) - 1)
    return rc


def rho_offsets():
    off = {(0, 0): 0}
    x, y = 1, 0
    for t in range(24):
        off[(x, y)] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return off


RHO = rho_offsets()


def rotl(v, k):
    if k == 0:
        return v
    if isinstance(v, int):
        return ((v << k) | (v >> (64 - k))) & T.mask(64)
    return T.concat([(T.extract(v, 64, 64 - k, k), k), (T.extract(v, 64, 0, 64 - k), 64 - k)])


def keccak_round(A, ir):
    """A: 25 lanes, A[x + 5*y]"""
    X = lambda a, b: T.bxor(a, b, 64)
    C = []
    for x in range(5):
        c = A[x]
        for y in range(1, 5):
            c = X(c, A[x + 5 * y])
        C.append(c)
    D = [X(C[(x - 1) % 5], rotl(C[(x + 1) % 5], 1)) for x in range(5)]
    A = [X(A[i], D[i % 5]) for i in range(25)]
    Bn = [None] * 25
    for x in range(5):
        for y in range(5):
            # pi: A'[x,y] = A[(x+3y) mod 5, x]
            sx, sy = (x + 3 * y) % 5, x
            Bn[x + 5 * y] = rotl(A[sx + 5 * sy], RHO[(sx, sy)])
    E = [X(Bn[x + 5 * y], T.band(T.bnot(Bn[(x + 1) % 5 + 5 * y], 64), Bn[(x + 2) % 5 + 5 * y], 64))
         for y in range(5) for x in range(5)]
    E = [E[i] for i in range(25)]
    E[0] = X(E[0], round_constant(ir))
    return E


def rounds_table():
    """round r+1 lanes as terms over fresh round-r names; {term: name of round r+1 lane}"""
    tab = {}
    names = [T.var('A0[%d]' % i, 64) for i in range(25)]
    first = names
    for r in range(24):
        E = keccak_round(names, r)
        names = [T.var('A%d[%d]' % (r + 1, i), 64) for i in range(25)]
        for e, n in zip(E, names):
            tab[e] = n
    return first, tab, names


class Blowup(Undecided):
    pass


def keccak_xor(tab):
    def x(a, b, w):
        r = T.bxor(a, b, w)
        if w == 64 and isinstance(r, S):
            n = tab.get(r)
            if n is not None:
                return n
            for p in r.ps:
                if len(p[2]) > 64:
                    raise Blowup('lane expression is not a Keccak-f intermediate value')
        return r
    return x


def args_state(fn, p):
    fn.parse()
    if len(fn.params) == 1:
        return [p]
    if len(fn.params) == 2 and fn.params[1][1] == ('i', 64):
        return [p, 25]
    return None


def run_perm(c, prog, fn, lanes, tab=None):
    eng = Engine(prog)
    if tab:
        eng.binop = {'xor': keccak_xor(tab)}
    st = State()
    o = eng.new_obj(st, 'state', 200)
    for i, l in enumerate(lanes):
        st.mem[o].write(8 * i, 8, l)
    a = args_state(fn, Ptr(o))
    if a is None:
        raise Undecided('signature of the permutation')
    r = eng.call(fn, a, st)
    c.use(eng)
    if r is None:
        raise Undecided('permutation does not return')
    return [r[1].mem[o].read(8 * i, 8) for i in range(25)], eng


def ref_perm(lanes):
    A = list(lanes)
    for r in range(24):
        A = keccak_round(A, r)
    return A


def check_perm(c, lang, prog, fn):
    rule = 'keccak-f1600'
    nm = '%s %s' % (lang, prog.dem(fn.name).split('(')[0].split('::')[-1])
    first, tab, last = rounds_table()
    proved = False
    try:
        out, eng = run_perm(c, prog, fn, first, tab)
        if all(isinstance(o, S) and o == l for o, l in zip(out, last)):
            proved = True
            for i in range(25):
                c.ok(rule, '%s lane %d' % (nm, i), '24 rounds, every round state lane identified', loc(fn))
            for x in eng.oob:
                c.bad('bounds', nm, '%s %s %s' % x, loc(fn))
        why = 'final lanes are not the round-24 lanes'
    except Undecided as e:
        why = str(e)
    if proved:
        return True
    # not provable term by term: confirm with singleton abstract values
    rnd = random.Random(c.seed)
    for t in range(3):
        lanes = [rnd.getrandbits(64) for _ in range(25)] if t else [0] * 25
        out, _ = run_perm(c, prog, fn, lanes)
        ref = ref_perm(lanes)
        for i in range(25):
            if isinstance(out[i], int) and out[i] != ref[i]:
                c.bad(rule, '%s lane %d' % (nm, i), 'constant propagation of state %s gives %#x, FIPS 202 gives %#x (%s)' %
                      ('0' if not t else 'random#%d' % t, out[i], ref[i], why), loc(fn))
                return False
    c.und(rule, nm, why, loc(fn))
    return False


def m_keccakf(eng, fr, ins, args, st):
    p = args[0]
    v = eng.bytes_of(st, p, 200)
    if not isinstance(v, (int, S)):
        raise Undecided('permutation of %r' % (v,))
    a = T.atom('fun', ('keccakf', v), 1600, 0, T.mask(1600))
    eng.copy_in(st, p, [('v', 200, T.from_atom(a, 0, 1600))])
    return None


def keccakf(v):
    return T.from_atom(T.atom('fun', ('keccakf', v), 1600, 0, T.mask(1600)), 0, 1600)


def spec_shake(rate, msg, mlen, outlen):
    """msg: value of mlen bytes -> value of outlen bytes"""
    s = 0
    pos = 0
    while mlen - pos >= rate:
        blk = T.extract(msg, 8 * mlen, 8 * pos, 8 * rate)
        s = keccakf(T.bxor(s, T.concat([(blk, 8 * rate), (0, 1600 - 8 * rate)]), 1600))
        pos += rate
    rem = mlen - pos
    tail = T.extract(msg, 8 * mlen, 8 * pos, 8 * rem) if rem else 0
    pad = 0x1F | (0x80 << (8 * (rate - rem - 1)))
    blk = T.concat([(tail, 8 * rem), (pad, 8 * (rate - rem)), (0, 1600 - 8 * rate)])
    s = T.bxor(s, blk, 1600)
    out = []
    n = outlen
    while n > 0:
        s = keccakf(s)
        k = min(n, rate)
        out.append((T.extract(s, 1600, 0, 8 * k), 8 * k))
        n -= k
    return T.concat(out) if out else 0


def shake_case(c, lang, prog, fn, models, rate, mlen, outlen, name):
    rule = 'sponge'
    eng = Engine(prog, models, unroll=5000)
    st = State()
    G = 64
    o = eng.new_obj(st, 'out', outlen + G)
    for k in range(0, outlen + G, 8):
        pass
    st.mem[o] = CMem(outlen + G, ('in', T.seq('OUT0'), 0))
    m = eng.input_obj(st, 'M', mlen)
    fn.parse()
    if len(fn.params) == 4:
        a = [Ptr(o), outlen, Ptr(m), mlen]
    elif len(fn.params) == 6:
        a = [Ptr(o), outlen, outlen, Ptr(m), mlen, mlen]
    else:
        raise Undecided('signature of %s' % name)
    r = eng.call(fn, a, st)
    c.use(eng)
    nm = '%s %s(%d bytes -> %d bytes)' % (lang, name, mlen, outlen)
    if r is None:
        c.bad(rule, nm, 'never returns a value: %s' % (eng.events[-1][1:3],) if eng.events else 'does not return', loc(fn))
        return
    msg = T.seqbytes(T.seq('M'), 0, mlen) if mlen else 0
    if outlen:
        c.equal(rule, nm, r[1].mem[o].read(0, outlen), spec_shake(rate, msg, mlen, outlen), 8 * outlen, loc(fn), rounds=3)
    c.equal('output-frame', nm + ' writes nothing behind the output', r[1].mem[o].read(outlen, G), T.seqbytes(T.seq('OUT0'), outlen, G), 8 * G,
            loc(fn), rounds=3)
    for x in eng.oob:
        c.bad('bounds', nm, '%s %s %s' % x, loc(fn))


class Enough(Exception):
    pass


def prefix_case(c, lang, prog, fn, models, perm, rate, mlen, outlen, name, steps):
    """lengths far beyond what can be followed to the end: the inputs of the first permutations, and the output blocks stored between them"""
    rule = 'sponge-prefix'
    nm = '%s %s(%d bytes -> %d bytes)' % (lang, name, mlen, outlen)
    seen, outs = [], []
    o = None

    def m(eng, fr, ins, args, st):
        seen.append(eng.bytes_of(st, args[0], 200))
        outs.append(st.mem[o].read(0, rate * steps))
        if len(seen) == steps:
            raise Enough()
        return m_keccakf(eng, fr, ins, args, st)
    eng = Engine(prog, dict(models, **{perm: m}), unroll=5000)
    st = State()
    o = eng.new_obj(st, 'out', outlen)
    st.mem[o] = CMem(outlen, ('in', T.seq('OUT0'), 0))
    mo = eng.input_obj(st, 'M', mlen)
    fn.parse()
    a = [Ptr(o), outlen, Ptr(mo), mlen] if len(fn.params) == 4 else [Ptr(o), outlen, outlen, Ptr(mo), mlen, mlen]
    try:
        eng.call(fn, a, st)
        c.use(eng)
        c.bad(rule, nm, 'only %d blocks are processed' % len(seen), loc(fn))
        return
    except Enough:
        pass
    c.use(eng)
    s, k, done = 0, 0, 0
    msg = lambda a, n: T.seqbytes(T.seq('M'), a, n)
    absorbed = False
    pos = 0
    for k in range(steps):
        if not absorbed:
            rem = mlen - pos
            if rem >= rate:
                blk = (msg(pos, rate), 8 * rate)
                pos += rate
                s = T.bxor(s, T.concat([blk, (0, 1600 - 8 * rate)]), 1600)
            else:
                pad = 0x1F | (0x80 << (8 * (rate - rem - 1)))
                s = T.bxor(s, T.concat(([(msg(pos, rem), 8 * rem)] if rem else []) + [(pad, 8 * (rate - rem)), (0, 1600 - 8 * rate)]), 1600)
                absorbed = True
        elif k:
            done += 1
        c.equal(rule, '%s, input of permutation %d' % (nm, k), seen[k], s, 1600, loc(fn), rounds=3)
        if done:
            want = T.extract(s, 1600, 0, 8 * rate)
            c.equal(rule, '%s, output block %d' % (nm, done - 1), T.extract(outs[k], 8 * rate * steps, 8 * rate * (done - 1), 8 * rate), want, 8 * rate, loc(fn), rounds=3)
        s = keccakf(s)


def one_lang(c, lang, prog, permname, fns):
    pf = prog.find(permname)
    okp = False
    if pf is None:
        # renamed: any function on a state pointer that satisfies the rule
        for b, fs in prog.bybase.items():
            for f in fs:
                l = f.loc()
                if l and l[0] and 'fips202' in l[0] and args_state(f, 0) is not None:
                    sub = type(c)(c.prop, c.tier, c.seed)
                    if sub.section('x', 'x', check_perm, sub, lang, prog, f):
                        pf = f
                        break
            if pf:
                break
    if pf is None:
        c.und('keccak-f1600', lang, 'no permutation function found')
        models = {}
    else:
        okp = c.section('keccak-f1600', lang, check_perm, c, lang, prog, pf)
        models = {pf.name: m_keccakf}
    for name, rate in (('shake128', 168), ('shake256', 136)):
        f = prog.find(fns % name)
        if f is None:
            c.und('sponge', '%s %s' % (lang, name), 'function not found')
            continue
        ks = set(range(0, rate + 3)) | set(range(2 * rate - 2, 2 * rate + 3)) | {2 * rate + 77, 3 * rate - 1, 3 * rate, 3 * rate + 9, 5 * rate + 31}
        if c.thorough:
            ks |= set(range(0, 4 * rate + 2))
        if pf is not None:
            for mlen, outlen in (((1 << 32) + 5, 32), ((1 << 32) + rate + 1, 64), ((1 << 31) + 9, 32), ((1 << 40) + 2 * rate, 32), (3, (1 << 32) + 5), (rate, (1 << 31) + 2 * rate), (0, (1 << 40) + 1)):
                c.section('sponge-prefix', '%s %s(%d -> %d)' % (lang, name, mlen, outlen), prefix_case, c, lang, prog, f, models, pf.name, rate, mlen, outlen, name, 4)
            for mlen in (65535, 65536 + rate - 1, 70001):
                c.section('sponge', '%s %s(%d)' % (lang, name, mlen), shake_case, c, lang, prog, f, models, rate, mlen, 32, name)
            for ol in (256 * rate, 257 * rate + 1, 65535, 65536 + rate + 3):
                c.section('sponge', '%s %s(-> %d)' % (lang, name, ol), shake_case, c, lang, prog, f, models, rate, 7, ol, name)
        cs = [k for k in constants(prog, f, tuple(models)) if k < (1 << 17)]
        for k in cs:
            for d in (-1, 0, 1, rate):
                if k + d > 0:
                    ks.add(k + d)
        for mlen in sorted(ks):
            c.section('sponge', '%s %s(%d)' % (lang, name, mlen), shake_case, c, lang, prog, f, models, rate, mlen, 32, name)
        outs = {0, 1, 31, 33, 64, 96, rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate, 2 * rate + 1, 3 * rate + 5, 1000}
        if c.thorough:
            outs |= set(range(0, 3 * rate + 2))
        for k in cs:
            if k < 20000:
                outs |= {k - 1, k, k + 1}
        for ol in sorted(outs):
            for mlen in (0, 7, rate - 1, rate + 5):
                c.section('sponge', '%s %s(%d -> %d)' % (lang, name, mlen, ol), shake_case, c, lang, prog, f, models, rate, mlen, ol, name)


@check('C01', 'other', 'abstract interpretation of LLVM IR (C++ and Rust) to canonical terms, compared with FIPS 202 terms',
       'Keccak-f[1600] is decided for all states: every lane of every one of the 24 rounds computed by the code is identified with the lane '
       'the standard prescribes. Absorb, padding and squeeze are decided for all message contents at an enumerated set of message and output '
       'lengths (all residues of the rate over one block, block boundaries, and lengths around every constant the code compares with).')
def c01(c):
    c.section('sponge', 'C++', lambda: one_lang(c, 'C++', PR.load(['xmss']), 'KeccakF1600_StatePermute', '%s'))
    P = 'qrllib::rust_wrapper::xmss_alt::fips202::'
    c.section('sponge', 'Rust', lambda: one_lang(c, 'Rust', PR.load_rust(), P + 'keccak_f1600_state_permute', P + '%s'))
    c.assumptions.append('message and output lengths outside the enumerated set behave like those inside it (control depends on the length '
                         'only through the compared constants and the rate)')
