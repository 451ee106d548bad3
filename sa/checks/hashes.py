"""C02: keyed hash functions; C03: addresses."""
from .. import terms as T, spec as SP, program as PR
from ..core import check
from ..interp import Engine, State, Ptr, canon_segs
from ..models import PRIMS
from ..terms import S, Top


def loc(f):
    return f.loc() if f else None


def adrs_in(eng, st, name='adrs'):
    o = eng.new_obj(st, name, 32)
    ws = [T.var('%s.w%d' % (name, i), 32) for i in range(8)]
    for i, w in enumerate(ws):
        st.mem[o].write(4 * i, 4, w)
    return o, SP.Adrs(ws)


def run(c, prog, fn, mk, models=PRIMS):
    """mk(eng, st) -> args ; returns (eng, ret, state) or None"""
    eng = Engine(prog, models)
    st = State()
    args = mk(eng, st)
    r = eng.call(fn, args, st)
    c.use(eng)
    return eng, r


def constants(prog, fn, stop=(), limit=1 << 18):
    """integer constants compared with or used in arithmetic by fn and its callees"""
    seen, out = set(), set()
    work = [fn]
    while work:
        f = work.pop()
        if f is None or f.name in seen:
            continue
        seen.add(f.name)
        for i in f.insts():
            if i.op in ('call', 'invoke'):
                cn = i.x['callee']
                if cn[0] == 'g' and prog.base(cn[1]) not in stop:
                    g = f.mod.funcs.get(cn[1]) or prog.external(cn[1])
                    if g:
                        work.append(g)
            elif i.op in ('alloca', 'getelementptr', 'load', 'store'):
                continue
            for o in i.ops:
                if o[0] == 'k' and isinstance(o[1], int) and 8 < o[1] < limit:
                    out.add(o[1])
            if i.op == 'switch':
                for k, _ in i.x[1]:
                    if 8 < k < limit:
                        out.add(k)
    return out


def lengths(prog, fn, stop=(), base=(0, 1, 2, 31, 32, 33, 64, 100, 257, 1025)):
    """message lengths that separate every length test in the code"""
    ks = set(base)
    cs = sorted(constants(prog, fn, stop))
    for k in cs[:60]:
        for d in (-160, -129, -128, -97, -96, -33, -32, -1, 0, 1, 2, 32):
            if abs(d) > 2 and k < 200:
                continue
            if k + d >= 0:
                ks.add(k + d)
    return sorted(ks)


@check('C02', 'proof', 'abstract interpretation of LLVM IR to canonical value terms, compared with RFC 8391 terms',
       'Every one of F, H, PRF and H_msg is interpreted once per hash function with all inputs abstract (H_msg with a message of '
       'symbolic length); the resulting memory term must equal the specification term. SHAKE/SHA2 are opaque here (C01 decides SHAKE).')
def c02(c):
    prog = PR.load(['xmss'])
    R1 = 'keyed-hash-term'
    for hn, hf in SP.HF.items():
        def do_prf():
            f = prog.find('prf')
            o = {}

            def mk(eng, st):
                o['out'] = eng.new_obj(st, 'out', 32)
                o['in'] = eng.input_obj(st, 'M', 32)
                o['key'] = eng.input_obj(st, 'KEY', 32)
                return [hf, Ptr(o['out']), Ptr(o['in']), Ptr(o['key']), 32]
            eng, r = run(c, prog, f, mk)
            v = r[1].mem[o['out']].read(0, 32)
            c.equal(R1, 'prf[%s]' % hn, v, SP.prf(hf, T.seqbytes(T.seq('M'), 0, 32), T.seqbytes(T.seq('KEY'), 0, 32)), 256, loc(f))
            c.equal('status', 'prf[%s] returns 0' % hn, r[0], 0, 32, loc(f))
        c.section(R1, 'prf[%s]' % hn, do_prf)

        def do_hf(name, n, spec):
            f = prog.find(name)
            o = {}

            def mk(eng, st):
                o['out'] = eng.new_obj(st, 'out', 32)
                o['in'] = eng.input_obj(st, 'M', n)
                o['pub'] = eng.input_obj(st, 'PUB', 32)
                o['a'], o['adrs'] = adrs_in(eng, st)
                return [hf, Ptr(o['out']), Ptr(o['in']), Ptr(o['pub']), Ptr(o['a']), 32]
            eng, r = run(c, prog, f, mk)
            v = r[1].mem[o['out']].read(0, 32)
            ex = spec(hf, T.seqbytes(T.seq('M'), 0, n), T.seqbytes(T.seq('PUB'), 0, 32), o['adrs'])
            c.equal(R1, '%s[%s]' % (name, hn), v, ex, 256, loc(f))
            c.equal('status', '%s[%s] returns 0' % (name, hn), r[0], 0, 32, loc(f))
            for i in range(7):
                c.equal('address-frame', '%s[%s] leaves address word %d' % (name, hn, i), r[1].mem[o['a']].read(4 * i, 4),
                        o['adrs'].w[i], 32, loc(f))
        c.section(R1, 'hash_f[%s]' % hn, do_hf, 'hash_f', 32, SP.F)
        c.section(R1, 'hash_h[%s]' % hn, do_hf, 'hash_h', 64, SP.H)

        def do_hmsg(ln):
            f = prog.find('h_msg')
            o = {}

            def mk(eng, st):
                o['out'] = eng.new_obj(st, 'out', 32)
                o['in'] = eng.input_obj(st, 'M', ln)
                o['key'] = eng.input_obj(st, 'KEY', 96)
                return [hf, Ptr(o['out']), Ptr(o['in']), ln, Ptr(o['key']), 96, 32]
            eng, r = run(c, prog, f, mk)
            v = r[1].mem[o['out']].read(0, 32)
            ex = SP.keyed(hf, 2, T.seqbytes(T.seq('KEY'), 0, 96), 96, [('s', ln, T.seq('M'), 0) if isinstance(ln, S) else SP.B(T.seqbytes(T.seq('M'), 0, ln) if ln else 0, ln)])
            nm = 'h_msg[%s]%s' % (hn, '' if ln.ps == T.var('mlen', 64, hi=(1 << 40) - 1).ps else ' message of %s bytes' % T.show(ln)) if isinstance(ln, S) else 'h_msg[%s] message of %d bytes' % (hn, ln)
            c.equal(R1, nm, v, ex, 256, loc(f))
            c.equal('status', nm + ' returns 0', r[0], 0, 32, loc(f))
        mark = c.mark()
        c.section(R1, 'h_msg[%s]' % hn, do_hmsg, T.var('mlen', 64, hi=(1 << 40) - 1))
        if c.undecided_since(mark):
            for ln in T.huge() + lengths(prog, prog.find('h_msg'), PRIMS) + [65537]:
                c.section(R1, 'h_msg[%s] message of %s bytes' % (hn, ln), do_hmsg, ln)

        def do_hmsg_len(kl):
            f = prog.find('h_msg')
            o = {}

            def mk(eng, st):
                o['out'] = eng.new_obj(st, 'out', 32)
                o['in'] = eng.input_obj(st, 'M', 32)
                o['key'] = eng.input_obj(st, 'KEY', kl)
                return [hf, Ptr(o['out']), Ptr(o['in']), 32, Ptr(o['key']), kl, 32]
            eng, r = run(c, prog, f, mk)
            d = r[0]
            c.true('key-length', 'h_msg[%s] refuses a %d-byte key' % (hn, kl), (d != 0) if isinstance(d, int) else None,
                   'returns %r' % (d,), loc(f))
        for kl in (0, 32, 64, 95, 97, 128, 192):
            c.section('key-length', 'h_msg[%s] %d' % (hn, kl), do_hmsg_len, kl)

        # n = 64: supported by the functions for SHAKE, not used by the classes; an evaluation may be refused, but must not return 0 with another value
        N = 64

        def do64(name):
            f = prog.find(name)
            o = {}
            ml = {'prf': 32, 'hash_f': N, 'hash_h': 2 * N, 'h_msg': 45}[name]
            kl = {'h_msg': 3 * N}.get(name, N)
            nm = '%s[%s] n=64' % (name, hn)

            def mk(eng, st):
                o['out'] = eng.new_obj(st, 'out', N)
                o['in'], o['key'] = eng.input_obj(st, 'M', ml), eng.input_obj(st, 'KEY', kl)
                out, i, k = Ptr(o['out']), Ptr(o['in']), Ptr(o['key'])
                if name == 'prf':
                    return [hf, out, i, k, N]
                if name == 'h_msg':
                    return [hf, out, i, ml, k, kl, N]
                o['a'], o['adrs'] = adrs_in(eng, st)
                return [hf, out, i, k, Ptr(o['a']), N]
            eng, r = run(c, prog, f, mk)
            if r is None or (isinstance(r[0], int) and r[0] != 0):
                c.ok('status', nm, 'refused')
                return
            m, k = T.seqbytes(T.seq('M'), 0, ml), T.seqbytes(T.seq('KEY'), 0, kl)
            if r[0] != 0:
                c.und('status', nm, 'returns %r' % (r[0],), loc(f))
                return
            want = {'prf': lambda: SP.prf(hf, m, k, N), 'h_msg': lambda: SP.keyed(hf, 2, k, kl, [SP.B(m, ml)], N),
                    'hash_f': lambda: SP.F(hf, m, k, o['adrs'], N), 'hash_h': lambda: SP.H(hf, m, k, o['adrs'], N)}[name]()
            c.equal(R1, nm, r[1].mem[o['out']].read(0, N), want, 8 * N, loc(f))
        for name in ('prf', 'h_msg', 'hash_f', 'hash_h'):
            if hn != 'SHA2_256':
                c.section(R1, '%s[%s] n=64' % (name, hn), do64, name)

        def sha64():
            f = prog.find('h_msg')
            o = {}

            def mk(eng, st):
                o['out'] = eng.new_obj(st, 'out', N)
                return [hf, Ptr(o['out']), Ptr(eng.input_obj(st, 'M', 32)), 32, Ptr(eng.input_obj(st, 'KEY', 3 * N)), 3 * N, N]
            eng, r = run(c, prog, f, mk)
            c.true('status', 'h_msg[%s] n=64 is refused' % hn, (r[0] != 0) if r and isinstance(r[0], int) else None, 'returns %r' % (r and r[0],), loc(f))
        if hn == 'SHA2_256':
            c.section('status', 'h_msg[%s] n=64' % hn, sha64)
    c.assumptions.append('n = 32 (the only value the classes use) and, with messages of fixed length, n = 64')
    c.assumptions.append('message length below 2^40')


SETTERS = [('setLayerADRS', 'set_layer_adrs', 'layer', 32), ('setTreeADRS', 'set_tree_adrs', 'tree', 64),
           ('setType', 'set_type', 'type', 32), ('setKeyAndMask', 'set_key_and_mask', 'km', 32),
           ('setOTSADRS', 'set_ots_adrs', 'ots', 32), ('setChainADRS', 'set_chain_adrs', 'chain', 32),
           ('setHashADRS', 'set_hash_adrs', 'hash', 32), ('setLtreeADRS', 'set_ltree_adrs', 'ltree', 32),
           ('setTreeHeight', 'set_tree_height', 'height', 32), ('setTreeIndex', 'set_tree_index', 'index', 32)]


@check('C03', 'proof', 'abstract interpretation of LLVM IR (C++ and Rust) to canonical value terms, compared with the RFC 8391 address layout',
       'Every address setter of both languages is interpreted with all eight words and the field value abstract; each resulting word '
       'must equal the specified term (so both the write and its frame are decided for all inputs); serialisation likewise.')
def c03(c):
    def setter(lang, prog, f, field, w):
        R1 = 'address-field'
        nm = '%s %s' % (lang, prog.dem(f.name).split('::')[-1].split('(')[0])
        f.parse()
        if len(f.params) != 2:
            c.und(R1, nm, 'signature changed', loc(f))
            return
        o = {}
        v = T.var('value', w)

        def mk(eng, st):
            o['a'], o['adrs'] = adrs_in(eng, st)
            return [Ptr(o['a']), v]
        eng, r = run(c, prog, f, mk)
        ex = o['adrs'].set(**{field: v})
        for i in range(8):
            c.equal(R1, '%s word %d' % (nm, i), r[1].mem[o['a']].read(4 * i, 4), ex.w[i], 32, loc(f))
        for x in eng.oob:
            c.bad('bounds', nm, '%s %s %s' % x, loc(f))
    cx = PR.load(['xmss'])
    for cn, rn, field, w in SETTERS:
        f = cx.find(cn)
        if f is None:
            c.und('address-field', 'C++ ' + cn, 'function not found')
        else:
            c.section('address-field', 'C++ ' + cn, setter, 'C++', cx, f, field, w)

    def rust():
        rs = PR.load_rust()
        for cn, rn, field, w in SETTERS:
            f = rs.find('qrllib::rust_wrapper::xmss_alt::hash_address::' + rn)
            if f is None:
                c.und('address-field', 'Rust ' + rn, 'function not found')
            else:
                c.section('address-field', 'Rust ' + rn, setter, 'Rust', rs, f, field, w)
    c.section('address-field', 'Rust', rust)

    def ser():
        f = cx.find('addr_to_byte')
        o = {}

        def mk(eng, st):
            o['a'], o['adrs'] = adrs_in(eng, st)
            o['out'] = eng.new_obj(st, 'out', 32)
            return [Ptr(o['out']), Ptr(o['a'])]
        eng, r = run(c, cx, f, mk)
        c.equal('serialise', 'C++ addr_to_byte', r[1].mem[o['out']].read(0, 32), o['adrs'].bytes(), 256, loc(f))
        c.equal('serialise', 'C++ addr_to_byte leaves the address', r[1].mem[o['a']].read(0, 32), o['adrs'].mem(), 256, loc(f))
        for x in eng.oob:
            c.bad('bounds', 'C++ addr_to_byte', '%s %s %s' % x, loc(f))
    c.section('serialise', 'C++ addr_to_byte', ser)

    def tob(n):
        f = cx.find('to_byte')
        o = {}
        v = T.var('v', 64)

        def mk(eng, st):
            o['out'] = eng.new_obj(st, 'out', n)
            return [Ptr(o['out']), v, n]
        eng, r = run(c, cx, f, mk)
        c.equal('to_byte', 'C++ to_byte %d bytes' % n, r[1].mem[o['out']].read(0, n), SP.be(v, 64, n), 8 * n, loc(f))
        for x in eng.oob:
            c.bad('bounds', 'C++ to_byte', '%s %s %s' % x, loc(f))
    for n in (1, 2, 4, 8, 16, 32):
        c.section('to_byte', 'C++ to_byte %d' % n, tob, n)
