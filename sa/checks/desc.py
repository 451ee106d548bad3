"""C10: public verification, C12: descriptor codec, C13: addresses."""
from .. import terms as T, program as PR, spec as SP, xmss as X, klass as K
from ..core import check
from ..interp import Ptr, Engine, State
from ..terms import Undecided
from .hashes import loc
from .wots import HFV
from .verify import inb
from .keys import P4, CLS, make


# ------------------------------------------------------------------ C10
def verify_models(prog, calls, result):
    f = prog.find('xmss_Verifysig')
    if f is None or X.sig_of(f) != 'ippippi':
        raise Undecided('xmss_Verifysig not found with its documented parameters')

    def m(eng, fr, ins, a, st):
        hf, wp, msg, mlen, sig, pk, h = a
        calls.append((eng, st.fork(), a))
        return result
    return {'xmss_Verifysig': m}


def c10_run(c, prog, sn, pn, b0=None, b1=None, w=16, mlen=None, want=None, nm=''):
    calls = []
    res = T.var('VERDICT', 32)
    a = K.Api(prog, verify_models(prog, calls, res))
    f = prog.find('XmssBase::verify')
    l = loc(f) if f else None
    mlen = T.var('MLEN', 64, 1, (1 << 40) - 1) if mlen is None else mlen
    msg = a.inp('MSG', mlen)
    sig = a.inp('SIG', sn)
    pk = a.inp('PK', pn)
    if b0 is not None:
        a.st.mem[pk.obj].write(0, 1, b0)
    if b1 is not None:
        a.st.mem[pk.obj].write(1, 1, b1)
    v, ex = a.call('vsa_verify', msg, mlen, sig, sn, pk, pn, w)
    c.true('never-throws', nm, v is not None and not ex, 'raises %s' % [K.excname(e) for e in ex], l)
    for x in a.eng.oob:
        c.bad('bounds', nm, '%s %s %s' % x, l)
    if v is None or ex:
        return None, calls, a
    v = T.extract(v, 8 if not isinstance(v, int) and v.w == 8 else 1, 0, 1) if not isinstance(v, int) else v & 1
    if want is False:
        if isinstance(v, int):
            c.true('refuses', nm, v == 0, 'accepted', l)
        else:
            c.equal('refuses', nm, v, 0, 1, l)
    elif want is True:
        ln = X.wots_len(w)[3]
        h = (sn - 4 - 32 - 32 * ln) // 32
        c.equal('accepts-iff-core', nm, v, T.eq(res, 0, 32), 1, l)
        if len(calls) > 1:
            c.und('core-arguments', nm, 'core verification reached on %d paths' % len(calls), l)
        elif not calls:
            c.bad('core-arguments', nm, 'core verification called %d times' % len(calls), l)
        else:
            eng, st, args = calls[0]
            hf, wp, m2, ml2, s2, p2, h2 = args
            c.equal('core-arguments', nm + ': height', h2, h, 32, l)
            c.equal('core-arguments', nm + ': hash function', hf, b0 & 15, 32, l)
            c.equal('core-arguments', nm + ': message length', ml2, mlen, 64, l)
            if mlen != 0:
                c.rope('core-arguments', nm + ': message', eng.copy_out(st, m2, mlen), (('s', mlen, T.seq('MSG'), 0),), st, l)
            c.equal('core-arguments', nm + ': signature', eng.bytes_of(st, s2, sn), inb('SIG', sn), 8 * sn, l)
            c.equal('core-arguments', nm + ': public key', eng.bytes_of(st, p2, 64), T.seqbytes(T.seq('PK'), 3, 64), 512, l)
            for i, (fn, ex) in enumerate((('len_1', None), ('len_2', None), ('len', ln), ('n', 32), ('w', w))):
                if ex is not None:
                    c.equal('core-arguments', nm + ': WOTS+ ' + fn, eng.load(st, Ptr(wp.obj, wp.off + 4 * i), 4), ex, 32, l)
    return v, calls, a


@check('C10', 'proof', 'abstract interpretation of LLVM IR of the public verify function over a partition of sizes and descriptor bytes',
       'XmssBase::verify is interpreted with core verification opaque, all remaining bytes and the message length abstract, for every '
       'value of the descriptor bytes, public key sizes and signature sizes around every boundary (and symbolic sizes above the maximum): '
       'the result must be false unless the sizes and descriptor agree, else exactly the core verdict on exactly those buffers; no '
       'exception may escape and no access may leave the arguments.')
def c10(c):
    prog = K.program()
    base = 4 + 32 + 67 * 32
    S = lambda nm, *a, **k: c.section('refuses', nm, lambda: c10_run(c, prog, *a, nm=nm, **k))
    for h in range(4, 31, 2):
        for b0 in (0, 1, 2):
            S('h=%d hash %d' % (h, b0), base + 32 * h, 67, b0, h // 2, want=True)
    S('empty message', base + 320, 67, 1, 5, mlen=0, want=True)
    for w, ln in ((4, 133),):
        S('w=%d' % w, 4 + 32 + 32 * ln + 320, 67, 0, 5, w=w, want=True)
    for b0 in range(3, 256):
        S('h=10 descriptor byte 0 = 0x%02x' % b0, base + 320, 67, b0, 5, want=False)
    for b1 in range(16):
        for b0 in (0, 1, 2):
            if b1 != 5:
                S('signature of h=10, descriptor height %d, hash %d' % (2 * b1, b0), base + 320, 67, b0, b1, want=False)
    for hh in list(range(0, 34)) + [64, 100, 128, 254, 255, 256, 257, 260, 266, 512, 522, 65536 + 10]:
        for b1 in sorted({0, 1, 5, (hh // 2) & 15, 15}):
            if hh == 2 * b1 and hh >= 4:
                continue
            S('signature of %d path nodes, descriptor height %d' % (hh, 2 * b1), base + 32 * hh, 67, 1, b1, want=False)
    for d in list(range(1, 32)):
        S('signature %d bytes longer than h=10' % d, base + 320 + d, 67, 1, 5, want=False)
    for sn in (0, 1, 3, 4, 35, 36, 68, base - 64, base - 32, base - 1):
        for b1 in (0, 1, 5, 15):
            S('signature of %d bytes, descriptor height %d' % (sn, 2 * b1), sn, 67, 0, b1, want=False)
    for k in range(1, 16):
        S('h=10, short by %d nodes' % k, base + 320 - 32 * k, 67, 1, 5, want=False)
    for pn in (0, 1, 2, 3, 32, 35, 64, 66, 68, 99, 134):
        S('public key of %d bytes' % pn, base + 320, pn, 1 if pn > 1 else None, 5 if pn > 1 else None, want=False)
    S('any public key above 67 bytes', base + 320, T.add(T.var('PKX', 64, hi=1 << 30), 68, 64), want=False)
    S('any signature above height 254', T.add(T.var('SIGX', 64, hi=1 << 30), base + 255 * 32, 64), 67, 1, 5, want=False)
    for w in (0, 1, 3, 5, 8, 15, 17, 32, 64, 1 << 31, (1 << 32) - 1):
        S('Winternitz parameter %d' % w, base + 320, 67, 1, 5, w=w, want=False)
    c.functions |= set(['XmssBase::verify'])
    c.assumptions += ['allocation does not fail', 'message length below 2^40']


# ------------------------------------------------------------------ C12
class CxxDesc:
    name = 'C++'

    def __init__(self):
        self.prog = K.program()
        f = self.prog.find('QRLDescriptor::fromBytes')
        self.loc = loc(f) if f else None
        self.dec = {'bytes': 'vsa_desc_from', 'seed': 'vsa_desc_seed', 'pk': 'vsa_desc_pk'}

    def api(self):
        return K.Api(self.prog)

    def decode(self, kind, n, wr):
        a = self.api()
        p = a.inp('D', n)
        for i, v in enumerate(wr):
            if v is not None:
                a.st.mem[p.obj].write(i, 1, v)
        f, b = a.out(16), a.out(3)
        v, ex = a.call(self.dec[kind], p, n, f, b)
        self.last = a
        if ex and a.st.mem.get(f.obj) is None:
            return 'refused', ex
        a.ok = not ex
        try:
            flds = [a.mem(f, 4 * i, 4) for i in range(4)]
        except Undecided:
            return 'refused', ex
        if isinstance(flds[0], T.Top) or not isinstance(flds[0], (int, T.S)):
            return 'refused', ex
        return (flds, a.mem(b, 0, 3), ex)

    def encode(self, hf, st, h, af):
        a = self.api()
        f, b = a.out(16), a.out(3)
        v, ex = a.call('vsa_desc_new', hf, st, h, af, f, b)
        self.last = a
        if ex:
            raise Undecided('raises %s' % ex)
        return [a.mem(f, 4 * i, 4) for i in range(4)], a.mem(b, 0, 3)


def c12_lang(c, L):
    n = L.name
    l = L.loc

    def dec(kind, size, b0, b1, nm, want):
        r = L.decode(kind, size, (b0, b1) if b0 is not None else ())
        if not want:
            c.true('refuses', nm, r[0] == 'refused', 'a descriptor is produced: %r' % (r[0],), l)
            return
        known = b1 >> 4 == 0        # an address format no constant is defined for may be kept or refused, not changed
        if r[0] == 'refused':
            c.true('decodes', nm, not known, 'refused: %s' % (r[1],), l)
            return
        flds, bts, ex = r
        if ex and known:
            c.bad('decodes', nm, 'refused on some inputs: %s' % ex, l)
        for i, (fn, e) in enumerate((('hash function', b0 & 15), ('signature type', b0 >> 4), ('height', (b1 & 15) * 2), ('address format', b1 >> 4))):
            c.equal('decodes', '%s: %s' % (nm, fn), flds[i], e, 32, l)
        c.equal('round-trip', nm + ': re-encoding', bts, b0 | b1 << 8, 24, l)
    for b0 in range(256):
        for b1 in (range(256) if b0 < 3 else (0, 5, 8, 15, 0x15)):
            c.section('decodes', '%s %02x%02x' % (n, b0, b1), dec, 'bytes', 3, b0, b1, '%s decoding %02x %02x xx' % (n, b0, b1), b0 < 3)
    for size in (0, 1, 2, 4, 5, 6, 51, 67):
        c.section('refuses', '%s size %d' % (n, size), dec, 'bytes', size, 1 if size > 1 else None, 8, '%s decoding %d bytes' % (n, size), False)
    for kind, good in (('seed', 51), ('pk', 67)):
        for size in (0, 1, 3, 48, 50, 51, 52, 64, 66, 67, 68, 99):
            c.section('refuses', '%s %s size %d' % (n, kind, size), dec, kind, size, 1 if size > 1 else None, 8,
                      '%s decoding from an extended %s of %d bytes' % (n, kind, size), size == good)

    def enc(hf, h):
        flds, b = L.encode(hf, 0, h, 0)
        nm = '%s encoding hash %d height %d' % (n, hf, h)
        c.equal('encodes', nm, b, hf | (h // 2) << 8, 24, l)
        for i, e in enumerate((hf, 0, h, 0)):
            c.equal('encodes', nm + ' field %d' % i, flds[i], e, 32, l)
    for hf in range(3):
        for h in range(0, 31, 2):
            c.section('encodes', '%s %d %d' % (n, hf, h), enc, hf, h)


@check('C12', 'proof', 'abstract interpretation of LLVM IR (C++ and Rust) of the descriptor codec over every byte value, compared with the specified fields',
       'Decoding is interpreted for every first byte and every height nibble (third byte abstract) and for wrong sizes, encoding for every '
       'field combination, in C++ and Rust; every field and re-encoded byte must equal the specification.')
def c12(c):
    L = CxxDesc()
    c12_lang(c, L)
    c.use(L.last.eng)
    from .. import rustapi
    def rust():
        R = rustapi.RustDesc()
        c12_lang(c, R)
        c.use(R.last)
    c.section('decodes', 'Rust descriptor', rust)


# ------------------------------------------------------------------ C13
def sha(*segs):
    return SP.hashv('sha2_256', 32, *segs)


def address_of(pk):
    """pk: 67-byte value with known descriptor bytes"""
    d = T.extract(pk, 536, 0, 16)
    d = T.concat([(d, 16), (0, 8)])
    h1 = sha(SP.B(pk, 67))
    body = T.concat([(d, 24), (h1, 256)])
    h2 = sha(SP.B(body, 35))
    return T.concat([(body, 280), (T.extract(h2, 256, 224, 32), 32)])


@check('C13', 'proof', 'abstract interpretation of LLVM IR of the address helper and class accessors, compared with the documented composition',
       'getAddress and addressIsValid are interpreted with SHA-256 opaque and all bytes abstract, for every descriptor byte value and for '
       'wrong sizes; the composed address and the validity condition must equal the specified terms.')
def c13(c):
    prog = K.program()
    L = lambda n: (lambda f: loc(f) if f else None)(prog.find(n))
    lg, lv = L('QRLHelper::getAddress'), L('QRLHelper::addressIsValid')
    last = [None]

    def get(n, b0, b1, want):
        a = K.Api(prog)
        pk = a.inp('PK', n)
        if b0 is not None:
            a.st.mem[pk.obj].write(0, 1, b0)
            a.st.mem[pk.obj].write(1, 1, b1)
        o = a.out(4096)
        nm = 'getAddress of %d bytes, descriptor %s' % (n, '%02x%02x' % (b0, b1) if b0 is not None else '-')
        v, ex = a.call('vsa_addr_of', pk, n, o)
        last[0] = a
        if not want:
            c.true('refuses', nm, v is None and bool(ex), 'an address is produced', lg)
            for e in ex:
                c.true('refuses', nm + ' with invalid_argument', 'invalid_argument' in str(e.type), K.excname(e), lg)
            return
        if v is None or ex:
            c.bad('address', nm, 'refused: %s' % ex, lg)
            return
        c.equal('address', nm + ' size', v, 39, 64, lg)
        pkv = T.concat([(b0, 8), (b1, 8), (T.seqbytes(T.seq('PK'), 2, 65), 520)])
        c.equal('address', nm, a.mem(o, 0, 39), address_of(pkv), 312, lg)
    for b0 in range(3):
        for b1 in range(16):
            c.section('address', 'getAddress %02x%02x' % (b0, b1), get, 67, b0, b1, True)
    for b0 in list(range(3, 256)):
        c.section('refuses', 'getAddress %02x' % b0, get, 67, b0, 5, False)
    for b1 in range(16, 256):
        c.section('refuses', 'getAddress format %02x' % b1, get, 67, 1, b1, False)
    for n in (0, 1, 3, 64, 66, 68, 70, 67 + 128, 67 + 256, 67 + 512, 67 + (1 << 16)):
        c.section('refuses', 'getAddress size %d' % n, get, n, 1 if n > 1 else None, 5, False)

    def valid(n, b0, b1, want):
        a = K.Api(prog)
        ad = a.inp('ADR', n)
        if b0 is not None:
            a.st.mem[ad.obj].write(0, 1, b0)
            a.st.mem[ad.obj].write(1, 1, b1)
        nm = 'addressIsValid of %d bytes, descriptor %s' % (n, '%02x%02x' % (b0, b1) if b0 is not None else '-')
        v, ex = a.call('vsa_addr_valid', ad, n)
        last[0] = a
        c.true('never-throws', nm, v is not None and not ex, 'raises', lv)
        if v is None:
            return
        v = v & 1 if isinstance(v, int) else T.extract(v, v.w if v.w in (1, 8) else 8, 0, 1)
        if not want:
            c.equal('invalid', nm, v, 0, 1, lv)
            return
        q = T.seq('ADR')
        h = sha(SP.B(T.concat([(b0, 8), (b1, 8), (T.seqbytes(q, 2, 33), 264)]), 35))
        c.equal('valid-iff-checksum', nm, v, T.eq(T.seqbytes(q, 35, 4), T.extract(h, 256, 224, 32), 32), 1, lv)
        for x in a.eng.oob:
            c.bad('bounds', nm, '%s %s %s' % x, lv)
    for b0 in range(3):
        for b1 in range(16):
            c.section('valid-iff-checksum', '%02x%02x' % (b0, b1), valid, 39, b0, b1, True)
    for b0 in range(3, 256, 1):
        c.section('invalid', 'descriptor %02x' % b0, valid, 39, b0, 5, False)
    for b1 in range(16, 256):
        c.section('invalid', 'format %02x' % b1, valid, 39, 1, b1, False)
    for n in (0, 1, 2, 3, 34, 35, 36, 38, 40, 67, 39 + 64, 39 + 128, 39 + 256, 39 + 512, 39 + (1 << 16)):
        c.section('invalid', 'size %d' % n, valid, n, 1 if n > 1 else None, 5, False)

    def composed(fast, h):
        a = K.Api(prog, K.genkey_models(prog, 0, P4()))
        hf = 1
        b, ex = make(a, fast, h, hf)
        d = hf | (h // 2) << 8
        nm = '%s h=%d ' % (CLS[fast], h)
        parts = P4()
        pk = T.concat([(d, 24), (parts[3], 256), (parts[2], 256)])
        c.equal('composition', nm + 'getPK', a.bytes('vsa_pk', 67, b), pk, 536, L('XmssBase::getPK'))
        c.equal('composition', nm + 'getExtendedSeed', a.bytes('vsa_extseed', 51, b), T.concat([(d, 24), (inb('SEED', 48), 384)]), 408, L('XmssBase::getExtendedSeed'))
        c.equal('composition', nm + 'getAddress', a.bytes('vsa_address', 39, b), address_of(pk), 312, L('XmssBase::getAddress'))
        last[0] = a
    for fast in (True, False):
        for h in (4, 10, 30):
            c.section('composition', '%s h=%d' % (CLS[fast], h), composed, fast, h)

    def second(fast):
        # two objects in one process: the second one's values are its own
        a = K.Api(prog, K.genkey_models(prog, 0, P4()))
        parts = P4()
        for i, (h, hf) in enumerate(((4, 1), (6, 0), (10, 2), (4, 1))):
            b, ex = make(a, fast, h, hf)
            d = hf | (h // 2) << 8
            pk = T.concat([(d, 24), (parts[3], 256), (parts[2], 256)])
            nm = '%s object %d of one process ' % (CLS[fast], i + 1)
            c.equal('composition', nm + 'getPK', a.bytes('vsa_pk', 67, b), pk, 536, L('XmssBase::getPK'))
            c.equal('composition', nm + 'getAddress', a.bytes('vsa_address', 39, b), address_of(pk), 312, L('XmssBase::getAddress'))
            c.equal('composition', nm + 'getAddress again', a.bytes('vsa_address', 39, b), address_of(pk), 312, L('XmssBase::getAddress'))
        last[0] = a
    for fast in (True, False):
        c.section('composition', '%s second object' % CLS[fast], second, fast)
    if last[0]:
        c.use(last[0].eng)
    c.assumptions += ['SHA-256 (PicoSHA2) opaque: only its input and where its output goes are decided']
