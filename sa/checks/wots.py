"""C04: WOTS+ chains, digits, signing and recovery."""
import itertools
from .. import terms as T, program as PR, xmss as X
from ..core import check
from ..interp import Engine, State, Ptr
from .hashes import adrs_in, loc


HFV = lambda: T.var('hash_func', 32, hi=2)


def setup(c, prog, w, models):
    eng = Engine(prog, models)
    st = State()
    wp, st = X.wots_params(prog, eng, st, w)
    return eng, st, wp


@check('C04', 'proof', 'abstract interpretation of LLVM IR to canonical value terms, compared with RFC 8391 WOTS+ terms',
       'gen_chain is interpreted for every (start, steps) inside the chain with abstract contents; wots_pkgen, wots_sign and '
       'wots_pkFromSig are then interpreted with every digest, seed, address and hash function abstract: element i of each result must be '
       'the chain of exactly the digit-dependent number of steps over the specified head.')
def c04(c):
    prog = PR.load(['xmss'])
    hf = HFV()
    ws = (16, 4, 256, 2)

    def params(w):
        f = prog.find('wots_set_params')
        eng, st, o = setup(c, prog, w, X.opaque(prog, ()))
        c.use(eng)
        lg, l1, l2, ln = X.wots_len(w)
        want = [('len_1', l1), ('len_2', l2), ('len', ln), ('n', 32), ('w', w), ('log_w', lg), ('keysize', 32 * ln)]
        for i, (nm, v) in enumerate(want):
            c.equal('parameters', 'wots_set_params w=%d %s' % (w, nm), st.mem[o].read(4 * i, 4), v, 32, loc(f))
    for w in ws:
        c.section('parameters', 'w=%d' % w, params, w)

    # ------------------------------------------------ lemma: chains
    chain_ok = {}

    def chain(w):
        f = prog.find('gen_chain')
        if f is None or X.sig_of(f) != X.SIGS['gen_chain'][1]:
            return
        mods = X.opaque(prog, X.HASHES)
        good = True
        for start in range(w):
            for steps in (range(w - start) if w <= 16 or start in (0, 1, 100) else sorted({0, 1, w - 1 - start, (w - start) // 2})):
                if steps >= w - start:
                    continue
                for alias in (True, False):
                    if alias is False and steps not in (0, 1, w - 1 - start):
                        continue
                    eng, st, wp = setup(c, prog, w, mods)
                    pub = eng.input_obj(st, 'PUB', 32)
                    a, adrs = adrs_in(eng, st)
                    x = eng.input_obj(st, 'X', 32)
                    out = x if alias else eng.new_obj(st, 'out', 32)
                    r = eng.call(f, [hf, Ptr(out), Ptr(x), start, steps, Ptr(wp), Ptr(pub), Ptr(a)], st)
                    c.use(eng)
                    st = r[1]
                    xv = T.seqbytes(T.seq('X'), 0, 32)
                    pv = T.seqbytes(T.seq('PUB'), 0, 32)
                    v = st.mem[out].read(0, 32)
                    ok = v == X.chain_by_F(hf, xv, start, steps, pv, adrs.w) and not eng.oob
                    ok = ok and all(st.mem[a].read(4 * i, 4) == adrs.w[i] for i in range(6))
                    good = good and ok
                    if ok:
                        c.ok('chain-step', 'gen_chain w=%d start=%d steps=%d%s' % (w, start, steps, ' in place' if alias else ''), '', loc(f))
                    else:
                        c.und('chain-step', 'gen_chain w=%d start=%d steps=%d' % (w, start, steps),
                              'the chaining function does not have its usual contract; the WOTS functions are analysed with it inlined', loc(f))
                        chain_ok[w] = False
                        return
        chain_ok[w] = good
    for w in ws:
        c.section('chain-step', 'gen_chain w=%d' % w, chain, w)

    # ------------------------------------------------ the three operations
    def run(name, w, msg, modular, tag):
        f = prog.find(name)
        if f is None or X.sig_of(f) != X.SIGS[name][1]:
            c.und('wots-element', name, 'not found with its documented parameters')
            return
        lg, l1, l2, ln = X.wots_len(w)
        mods = X.opaque(prog, X.HASHES + (('gen_chain',) if modular else ()))
        eng, st, wp = setup(c, prog, w, mods)
        pub = eng.input_obj(st, 'PUB', 32)
        pv = T.seqbytes(T.seq('PUB'), 0, 32)
        a, adrs = adrs_in(eng, st)
        sk = eng.input_obj(st, 'SK', 32)
        skv = T.seqbytes(T.seq('SK'), 0, 32)
        m = eng.input_obj(st, 'DIGEST', 32)
        mv = T.seqbytes(T.seq('DIGEST'), 0, 32)
        if msg is not None:
            mv = int.from_bytes(msg, 'little')
            st.mem[m].write(0, 32, mv)
        sig = eng.input_obj(st, 'SIG', 32 * ln)
        out = eng.new_obj(st, 'out', 32 * ln)
        if name == 'wots_pkgen':
            args = [hf, Ptr(out), Ptr(sk), Ptr(wp), Ptr(pub), Ptr(a)]
        elif name == 'wots_sign':
            args = [hf, Ptr(out), Ptr(m), Ptr(sk), Ptr(wp), Ptr(pub), Ptr(a)]
        else:
            args = [hf, Ptr(out), Ptr(sig), Ptr(m), Ptr(wp), Ptr(pub), Ptr(a)]
        r = eng.call(f, args, st)
        c.use(eng)
        st = r[1]
        ds = X.digits(mv, w)

        def CH(x, s, k, aw):
            if modular:
                return X.CHAIN(hf, x, s, k, pv, aw)
            return X.chain_by_F(hf, x, s, k, pv, aw)
        for i in range(ln):
            aw = list(adrs.w)
            aw[5] = i
            head = X.PRF(hf, X.SP.tobyte(i, 32, 32), skv)
            d = ds[i]
            if name == 'wots_pkgen':
                ex = CH(head, 0, w - 1, aw)
            elif name == 'wots_sign':
                ex = CH(head, 0, d, aw)
            else:
                ex = CH(T.seqbytes(T.seq('SIG'), 32 * i, 32), d, T.sub(w - 1, d, 32), aw)
            c.equal('wots-element', '%s w=%d element %d%s' % (name, w, i, tag), st.mem[out].read(32 * i, 32), ex, 256, loc(f))
        for i in range(5):
            c.equal('address-frame', '%s w=%d leaves address word %d%s' % (name, w, i, tag), st.mem[a].read(4 * i, 4), adrs.w[i], 32, loc(f))
        for nm, o, n in (('secret seed', sk, 32), ('digest', m, 32), ('public seed', pub, 32)):
            c.equal('input-frame', '%s w=%d leaves the %s%s' % (name, w, nm, tag), st.mem[o].read(0, n),
                    {sk: skv, m: mv, pub: pv}[o], 8 * n, loc(f))
        for x in eng.oob:
            c.bad('bounds', '%s w=%d' % (name, w), '%s %s %s' % x, loc(f))
    for w in ws:
        for name in X.WOTS:
            mark = c.mark()
            f = prog.find(name)
            if chain_ok.get(w):
                c.section('wots-element', '%s w=%d' % (name, w), run, name, w, None, True, '')
            if not chain_ok.get(w) or c.undecided_since(mark):
                msgs = [None] if name == 'wots_pkgen' else sample_digests(c.thorough)
                for k, ms in enumerate(msgs):
                    c.section('wots-element', '%s w=%d' % (name, w), run, name, w, ms, False, ' (digest sample %d, inlined)' % k)
    c.extra['modular'] = {str(k): v for k, v in chain_ok.items()}
    c.assumptions += ['n = 32; Winternitz parameter 2, 4, 16 or 256', 'prf and hash_f are taken by contract (decided by C02)',
                      'recovery from a signature yields the public key because chain(start=d, w-1-d) after chain(0, d) is chain(0, w-1), '
                      'which is the chain-step rule']


def sample_digests(thorough):
    out = [bytes([17 * d] * 32) for d in range(16)]
    out.append(bytes(range(0, 256, 8)))
    import hashlib
    for i in range(24 if thorough else 6):
        out.append(hashlib.sha256(b'digest%d' % i).digest())
    # every checksum nibble value
    for i in range(16):
        out.append(bytes([255] * i + [0x5a] + [i] * (31 - i)))
    return out
