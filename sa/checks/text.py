"""C14: word list, C15: text encodings, C16: random seeds, C27: hash-chain seeds."""
import math
import os
from .. import terms as T, program as PR, spec as SP, text as X, rand as R
from ..core import check
from .. import interp as I, js as J
from ..interp import Ptr, canon_segs
from ..klass import excname
from ..models import PRIMS
from ..terms import Undecided, S
from .hashes import loc
from .verify import inb

DATA = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/data/'


def floc(a, n):
    f = a.prog.find(n) or a.prog.find(n + '[abi:cxx11]')
    return loc(f) if f else None


def invalid(c, rule, nm, v, ex, l, what):
    """obligation: the call always ends in an invalid_argument exception"""
    c.true(rule, nm, v is None and bool(ex), what, l)
    for e in ex:
        c.true(rule, nm + ' with an invalid-argument error', 'invalid_argument' in str(e.type), 'raises %s' % excname(e), l)


# ------------------------------------------------------------------ C14
def cxx_words(c):
    a = X.Api()
    n, ex = a.call('vsa_words')
    out = []
    for i in range(n):
        o = a.out(64)
        v, ex = a.call('vsa_word', i, o)
        if v is None or ex or not isinstance(v, int):
            raise Undecided('word %d not determined' % i)
        x = a.mem(o, 0, v)
        if not isinstance(x, int):
            raise Undecided('word %d not constant' % i)
        out.append(x.to_bytes(v, 'little').decode('latin1'))
        a.st.mem.pop(o.obj, None)
    c.use(a.eng)
    return out


def rust_words(c):
    from .. import rustapi as RA
    a = RA.Api()
    n, ev = a.call('vsar_words')
    out = []
    for i in range(n):
        o = a.out(64)
        v, ev = a.call('vsar_word', i, o)
        if v is None or ev or not isinstance(v, int):
            raise Undecided('word %d not determined' % i)
        x = a.mem(o, 0, v)
        if not isinstance(x, int):
            raise Undecided('word %d not constant' % i)
        out.append(x.to_bytes(v, 'little').decode('utf8', 'replace'))
        a.st.mem.pop(o.obj, None)
    c.use(a.eng)
    return out


def word_rules(c, nm, ws, ref, l):
    c.true('size', nm, len(ws) == 4096, 'the list has %d entries' % len(ws), l)
    seen = {}
    for i, w in enumerate(ws):
        k = '%s entry %d' % (nm, i)
        c.true('lower-case-word', k, bool(w) and all('a' <= ch <= 'z' for ch in w), 'entry is %r' % w, l)
        c.true('distinct', k, w not in seen, '%r is also entry %s' % (w, seen.get(w)), l)
        seen.setdefault(w, i)
        c.true('published', k, i < len(ref) and w == ref[i], 'entry is %r, the published list has %r' % (w, ref[i] if i < len(ref) else None), l)


@check('C14', 'proof', 'data rules over the word tables resolved from the compiled initialisers (C++ and Rust)',
       'Both tables are resolved to constants from the LLVM IR (the C++ one by interpreting its global constructor) and every entry of '
       'each is checked: 4096 entries, non-empty lower-case ASCII words, no entry twice, each equal to the entry of the published list '
       '(frozen copy in sa/data) and hence to that of the other library.  The tables are finite, so this is complete.')
def c14(c):
    ref = open(DATA + 'words.txt').read().split('\n')[:-1]
    for nm, f, l in (('C++', cxx_words, 'src/qrl/wordlist.cpp'), ('Rust', rust_words, 'src/rust_wrapper/qrl/wordlist.rs')):
        ws = c.section('size', nm + ' word list', f, c)
        if ws is not None:
            word_rules(c, nm, ws, ref, l)


# ------------------------------------------------------------------ C15
def hex_encode(c, n, driver='vsa_bin2hstr'):
    a = X.Api(table=False)
    l = floc(a, 'bin2hstr')
    nm = 'bin2hstr%s of %d bytes' % (' (string)' if driver != 'vsa_bin2hstr' else '', n)
    p = a.inp('X', n)
    o = a.out(4 * n + 8)
    v, ex = a.call(driver, p, n, 0, o)
    c.use(a.eng)
    c.true('hex-encode', nm + ': no error', v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    if v is None:
        return
    if not c.equal('hex-encode', nm + ': length', v, 2 * n, 64, l):
        return
    for i in range(n):
        for k in range(2):
            c.equal('hex-encode', nm + ': character %d' % (2 * i + k), a.mem(o, 2 * i + k, 1),
                    X.hexdigit(T.extract(inb('X', n), 8 * n, 8 * i + 4 * (1 - k), 4)), 8, l)


def digit_char(name, upper):
    """a character term ranging over all hex digits of one case, and its 4-bit value"""
    n = T.var(name, 4)
    return X.hexdigit(n, upper), n


def hex_decode(c, n, upper):
    a = X.Api(table=False)
    l = floc(a, 'hstr2bin')
    nm = 'hstr2bin of %d %s digits' % (2 * n, 'upper-case' if upper else 'lower-case')
    cs = [digit_char('D%d' % i, upper) for i in range(2 * n)]
    p = a.inp('text', 2 * n, T.concat([(x, 8) for x, _ in cs]) if n else 0)
    o = a.out(4 * n + 8)
    v, ex = a.call('vsa_hstr2bin', p, 2 * n, o)
    c.use(a.eng)
    c.true('hex-decode', nm + ': no error', v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    if v is None:
        return
    if not c.equal('hex-decode', nm + ': length', v, n, 64, l):
        return
    for i in range(n):
        c.equal('hex-decode', nm + ': byte %d' % i, a.mem(o, i, 1), T.concat([(cs[2 * i + 1][1], 4), (cs[2 * i][1], 4)]), 8, l)


def hex_refuse(c):
    a0 = X.Api(table=False)
    l = floc(a0, 'hstr2bin')
    for n in (1, 3, 5, 7):
        a = X.Api(table=False)
        p = a.inp('X', n)
        v, ex = a.call('vsa_hstr2bin', p, n, a.out(16))
        invalid(c, 'hex-refuse', 'any %d characters' % n, v, ex, l, 'an odd number of digits is decoded')
        a = X.Api(table=False)
        v, ex = a.call('vsa_hstr2bin', a.text(b'0' * n), n, a.out(16))
        invalid(c, 'hex-refuse', '%d zeros' % n, v, ex, l, 'an odd number of digits is decoded')
    for ln, pos in ((2, 0), (2, 1), (4, 2), (6, 5)):
        for x in range(256):
            if X.isx(x):
                continue
            t = bytearray(b'a7' * (ln // 2))
            t[pos] = x
            a = X.Api(table=False)
            v, ex = a.call('vsa_hstr2bin', a.text(bytes(t)), ln, a.out(16))
            invalid(c, 'hex-refuse', 'character 0x%02x at position %d of %d' % (x, pos, ln), v, ex, l, 'a character that is no hex digit is decoded')


def hex_wrapped(c, n, wrap, driver='vsa_bin2hstr'):
    """a line break after every `wrap` bytes, none at the end"""
    a = X.Api(table=False)
    l = floc(a, 'bin2hstr')
    nm = 'bin2hstr%s of %d bytes, wrapped at %d' % (' (string)' if driver != 'vsa_bin2hstr' else '', n, wrap)
    p, o = a.inp('X', n), a.out(4 * n + 8)
    v, ex = a.call(driver, p, n, wrap, o)
    c.use(a.eng)
    c.true('hex-wrap', nm + ': no error', v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    breaks = (n - 1) // wrap if n else 0
    if v is None or not c.equal('hex-wrap', nm + ': length', v, 2 * n + breaks, 64, l):
        return
    pos = 0
    for i in range(n):
        if i and i % wrap == 0:
            c.equal('hex-wrap', nm + ': line break after byte %d' % (i - 1), a.mem(o, pos, 1), 10, 8, l)
            pos += 1
        for k in range(2):
            c.equal('hex-wrap', nm + ': digit %d' % (2 * i + k), a.mem(o, pos, 1),
                    X.hexdigit(T.extract(inb('X', n), 8 * n, 8 * i + 4 * (1 - k), 4)), 8, l)
            pos += 1


def pattern(n, seed=0):
    import hashlib
    return hashlib.shake_128(b'%d' % seed).digest(n)


def diff(c, rule, nm, got, want, l):
    """a long constant result, named by the first byte that differs"""
    if not isinstance(got, int):
        return c.und(rule, nm, 'result not determined', l)
    g = got.to_bytes(len(want), 'little')
    i = next((i for i in range(len(want)) if g[i] != want[i]), None)
    return c.true(rule, nm, i is None, '' if i is None else 'byte %d of %d is 0x%02x instead of 0x%02x' % (i, len(want), g[i], want[i]), l)


def long_texts(c, n):
    """constant propagation through the codecs for one long byte string"""
    b = pattern(n, n)
    ref = open(DATA + 'words.txt').read().split('\n')[:-1]
    n3 = n - n % 3
    x = int.from_bytes(b[:n3], 'big')
    k = 2 * n3 // 3
    words = ' '.join(ref[x >> 12 * (k - 1 - i) & 4095] for i in range(k)).encode() if n3 < 3000 else None
    if words is None:
        h = b[:n3].hex()
        words = ' '.join(ref[int(h[3 * i:3 * i + 3], 16)] for i in range(k)).encode()

    def run(rule, nm, fn, driver, text, want, *extra, table=True):
        a = X.Api(table=table)
        a.eng.max_steps = 60_000_000
        a.eng.spin = ()
        l = floc(a, fn)
        o = a.out(len(want) + 64)
        v, ex = a.call(driver, a.text(text), len(text), *extra, o)
        c.use(a.eng)
        c.true(rule, nm + ': no error', v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
        if v is not None and c.equal(rule, nm + ': length', v, len(want), 64, l):
            diff(c, rule, nm, a.mem(o, 0, len(want)), want, l)

    def refuse(rule, nm, fn, driver, text, what, table=True):
        a = X.Api(table=table)
        a.eng.max_steps = 60_000_000
        a.eng.spin = ()
        v, ex = a.call(driver, a.text(text), len(text), a.out(len(text) + 64))
        c.use(a.eng)
        invalid(c, rule, nm, v, ex, floc(a, fn), what)
    def S(rule, nm, f, *args, **kw):
        c.section(rule, '%s: %s' % (nm, args[1]), lambda: f(*args, **kw))
    S('hex-encode', 'long', run, 'hex-encode', 'bin2hstr of one string of %d bytes' % n, 'bin2hstr', 'vsa_bin2hstr', b, b.hex().encode(), 0, table=False)
    S('hex-encode', 'long', run, 'hex-encode', 'bin2hstr (string) of one string of %d bytes' % n, 'bin2hstr', 'vsa_sbin2hstr', b, b.hex().encode(), 0, table=False)
    S('hex-decode', 'long', run, 'hex-decode', 'hstr2bin of one text of %d digits' % (2 * n), 'hstr2bin', 'vsa_hstr2bin', b.hex().encode(), b, table=False)
    S('mnemonic-encode', 'long', run, 'mnemonic-encode', 'bin2mnemonic of one string of %d bytes' % n3, 'bin2mnemonic', 'vsa_bin2mnemonic', b[:n3], words)
    S('mnemonic-decode', 'long', run, 'mnemonic-decode', 'mnemonic2bin of one text of %d words' % k, 'mnemonic2bin', 'vsa_mnemonic2bin', words, b[:n3])
    if n > 5000:
        return
    h = b.hex()
    for pos in (0, 1, n, 2 * n - 2, 2 * n - 1):
        S('hex-refuse', 'long', refuse, 'hex-refuse', 'character g at position %d of %d' % (pos, 2 * n), 'hstr2bin', 'vsa_hstr2bin',
          (h[:pos] + 'g' + h[pos + 1:]).encode(), 'a character that is no hex digit is decoded', table=False)
    S('hex-refuse', 'long', refuse, 'hex-refuse', '%d hex digits' % (2 * n - 1), 'hstr2bin', 'vsa_hstr2bin', h[:-1].encode(), 'an odd number of digits is decoded', table=False)
    ws = words.split()
    for pos in (0, k // 2, k - 1):
        S('mnemonic-refuse', 'long', refuse, 'mnemonic-refuse', 'unknown word at %d of %d' % (pos, k), 'mnemonic2bin', 'vsa_mnemonic2bin',
          b' '.join(ws[:pos] + [b'zzzz'] + ws[pos + 1:]), 'an unknown word is decoded')
    S('mnemonic-refuse', 'long', refuse, 'mnemonic-refuse', 'odd number of words: %d' % (k - 1), 'mnemonic2bin', 'vsa_mnemonic2bin', b' '.join(ws[1:]), 'an odd number of words is decoded')


def mn_encode(c, n):
    a = X.Api()
    l = floc(a, 'bin2mnemonic')
    nm = 'bin2mnemonic of %d bytes' % n
    p = a.inp('X', n)
    o = a.out(40 * n + 64)
    v, ex = a.call('vsa_bin2mnemonic', p, n, o)
    c.use(a.eng)
    if n % 3:
        invalid(c, 'mnemonic-encode', nm, v, ex, l, 'a byte count that is no multiple of three is encoded')
        return
    c.true('mnemonic-encode', nm + ': no error', v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    if v is None:
        return
    if not isinstance(v, int):
        return c.und('mnemonic-encode', nm, 'length of the text not determined', l)
    t = a.mem(o, 0, v)
    if not isinstance(t, int):
        return c.und('mnemonic-encode', nm, 'text not determined', l)
    ws = t.to_bytes(v, 'little').split(b' ') if v else []
    c.true('mnemonic-encode', nm + ': number of words', len(ws) == 2 * n // 3, '%d words' % len(ws), l)
    tab = None
    for i, w in enumerate(ws[:2 * n // 3]):
        ix = a.words.idx.get(w)
        if ix is None:
            b = sorted(a.words.cache)
            c.bad('mnemonic-encode', nm + ': word %d' % i, 'word %d is %r whatever the input' % (i, w), l)
            continue
        c.equal('mnemonic-encode', nm + ': word %d' % i, ix, be12(inb('X', n), n, i), 12, l)


def be12(v, n, i):
    """the i-th 12-bit big-endian group of n bytes"""
    b = lambda k: T.extract(v, 8 * n, 4 * (k ^ 1), 4)       # k-th nibble, high nibble of each byte first
    return T.concat([(b(3 * i + 2), 4), (b(3 * i + 1), 4), (b(3 * i), 4)])


def mn_decode(c, n):
    a = X.Api()
    l = floc(a, 'mnemonic2bin')
    nm = 'mnemonic2bin of %d words' % n
    vs = [T.var('W%d' % i, 12) for i in range(n)]
    t = b' '.join(a.words.new(v) for v in vs)
    o = a.out(4 * n + 16)
    v, ex = a.call('vsa_mnemonic2bin', a.text(t), len(t), o)
    c.use(a.eng)
    c.true('mnemonic-decode', nm + ': no error', v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    if v is None:
        return
    if not c.equal('mnemonic-decode', nm + ': length', v, 3 * n // 2, 64, l):
        return
    nib = [T.extract(x, 12, 4 * k, 4) for x in vs for k in (2, 1, 0)]
    for i in range(3 * n // 2):
        c.equal('mnemonic-decode', nm + ': byte %d' % i, a.mem(o, i, 1), T.concat([(nib[2 * i + 1], 4), (nib[2 * i], 4)]), 8, l)


def mn_lookup(c):
    """real words are found with their own index (first, last, and neighbours)"""
    ref = open(DATA + 'words.txt').read().split('\n')[:-1]
    for i in (0, 1, 255, 256, 2047, 2048, 4094, 4095):
        a = X.Api()
        l = floc(a, 'mnemonic2bin')
        t = ('%s %s' % (ref[i], ref[4095 - i])).encode()
        o = a.out(16)
        v, ex = a.call('vsa_mnemonic2bin', a.text(t), len(t), o)
        nm = 'mnemonic2bin of words %d and %d' % (i, 4095 - i)
        c.true('word-index', nm + ': no error', v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
        if v == 3:
            c.equal('word-index', nm, a.mem(o, 0, 3), int.from_bytes((i << 12 | 4095 - i).to_bytes(3, 'big'), 'little'), 24, l)


def mn_refuse(c):
    ref = open(DATA + 'words.txt').read().split('\n')[:-1]
    w = [ref[i].encode() for i in (7, 300, 4000, 55)]
    l = floc(X.Api(table=False), 'mnemonic2bin')

    def go(nm, t, what):
        a = X.Api()
        v, ex = a.call('vsa_mnemonic2bin', a.text(t), len(t), a.out(64))
        invalid(c, 'mnemonic-refuse', nm, v, ex, l, what)
    for nm, t in (('one word', w[0]), ('three words', b' '.join(w[:3])), ('one word and a trailing space', w[0] + b' '), ('one word after a space', b' ' + w[0]),
                  ('three words with a double space', w[0] + b'  ' + w[1] + b' ' + w[2]), ('one word between spaces', b'  ' + w[0] + b' '),
                  ('one word and three spaces', w[0] + b'   '), ('three words, trailing space', b' '.join(w[:3]) + b' '),
                  ('three words, one tab', w[0] + b'\t' + w[1] + b' ' + w[2])):
        c.section('mnemonic-refuse', nm, go, 'odd number of words: ' + nm, t, 'an odd number of words is decoded')
    for u in (b'zzzz', b'aback1', b'abac', b'Aback', b'ABACK', b'abac\xc3\xa9', b'0', b'abackabbey', b'-', b'aback,', b'abacl'):
        for pos, n in ((0, 2), (1, 2), (2, 4), (3, 4)):
            t = list(w[:n])
            t[pos] = u
            c.section('mnemonic-refuse', '%r at %d' % (u, pos), go, 'unknown word %r at %d of %d' % (u, pos, n), b' '.join(t), 'an unknown word is decoded')


@check('C15', 'proof', 'abstract interpretation of LLVM IR of the codecs with abstract bytes, digits and word indexes',
       'Hex and mnemonic encoders and decoders are interpreted with every byte, digit or word index abstract: each output character, word '
       'index and byte must equal the documented one, which makes decoding the inverse of encoding.  Words are abstracted by their index '
       '(placeholder texts), so all 4096^n texts of n words are covered at once; texts with an odd number of words, unknown words, odd '
       'digit counts or any non-digit character at a position must raise invalid_argument.')
def c15(c):
    th = c.thorough
    for n in (0, 1, 2, 3, 5, 48) + ((51, 67, 200) if th else ()):
        c.section('hex-encode', 'bin2hstr of %d bytes' % n, hex_encode, c, n)
    for n in (0, 1, 3):
        c.section('hex-encode', 'bin2hstr of a string of %d bytes' % n, hex_encode, c, n, 'vsa_sbin2hstr')
    for n in (0, 1, 2, 3, 5, 48) + ((51, 67) if th else ()):
        for u in (False, True):
            c.section('hex-decode', 'hstr2bin of %d digits' % (2 * n), hex_decode, c, n, u)
    c.section('hex-refuse', 'hstr2bin', hex_refuse, c)
    for n in list(range(0, 13)) + [48, 49, 50, 51] + ([96, 99, 300] if th else []):
        c.section('mnemonic-encode', 'bin2mnemonic of %d bytes' % n, mn_encode, c, n)
    for n in (0, 2, 4, 6, 8, 10, 32, 34) + ((12, 14, 16, 66, 200) if th else ()):
        c.section('mnemonic-decode', 'mnemonic2bin of %d words' % n, mn_decode, c, n)
    for n in (0, 1, 2, 3, 5, 10):
        for wrap in (1, 2, 3, 5, 9, 10, 11, 1 << 31, (1 << 32) - 1):
            c.section('hex-wrap', 'bin2hstr of %d bytes' % n, hex_wrapped, c, n, wrap)
    for n, wrap in ((4, 2), (7, 3)):
        c.section('hex-wrap', 'bin2hstr of a string of %d bytes' % n, hex_wrapped, c, n, wrap, 'vsa_sbin2hstr')
    for n, wrap in ((520, 127), (520, 128), (520, 255), (520, 256), (620, 300)):
        c.section('hex-wrap', 'bin2hstr of %d bytes' % n, hex_wrapped, c, n, wrap)
    for n in (128, 129, 258, 513) + ((1000, 1026, 33000, 66000, 99000) if th else (33000,)):
        long_texts(c, n)
    c.section('word-index', 'mnemonic2bin', mn_lookup, c)
    mn_refuse(c)
    c.assumptions += ['character classes as in the C locale', 'allocation does not fail']


# ------------------------------------------------------------------ C27
def chain_seed(c, n, count, first=0):
    a = X.Api(table=False)
    l = floc(a, 'getHashChainSeed')
    nm = '%d seeds from %d bytes' % (count, n)
    a.eng.max_steps = 400_000_000
    p = a.inp('SEED', n)
    sh = T.var('SHIFT', 32)
    o, ln = a.out(32 * count + 64), a.out(8 * count + 64)
    v, ex = a.call('vsa_chain_seed', p, n, sh, count, o, ln)
    c.use(a.eng)
    c.true('no-error', nm, v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    if v is None or not c.equal('count', nm, v, count, 64, l):
        return
    for i in range(first, count):
        c.equal('length', nm + ': seed %d' % i, a.mem(ln, 8 * i, 8), 32, 64, l)
        want = SP.hashv('shake256', 32, SP.B(inb('SEED', n), n), SP.B(T.concat([(sh, 32), (i, 32)]), 8))
        c.equal('value', nm + ': seed %d' % i, a.mem(o, 32 * i, 32), want, 256, l)


@check('C27', 'other', 'abstract interpretation of LLVM IR of getHashChainSeed with opaque SHAKE256',
       'For every seed content and every shift (abstract) and an enumerated set of seed lengths and counts (across the first and the second '
       'counter-byte boundary), each produced seed must be the 32-byte SHAKE256 of seed || LE32(shift) || LE32(i).')
def c27(c):
    for n in (0, 1, 3, 32, 48, 51, 100):
        for k in (0, 1, 2, 3, 5):
            c.section('value', '%d seeds from %d bytes' % (k, n), chain_seed, c, n, k)
    c.section('value', 'many seeds', chain_seed, c, 48, 300)
    c.section('value', 'very many seeds', chain_seed, c, 2, 65538, 65400)


# ------------------------------------------------------------------ C29
def segs_of(name, n):
    return ('s', n, T.seq(name), 0) if isinstance(n, S) else SP.B(inb(name, n), n)


def vec_hash(c, driver, fn, prim, n, size, count=None):
    a = X.Api(table=False)
    l = floc(a, fn)
    nm = '%s%s of %s bytes%s' % (fn, '' if size == 32 and prim == 'sha2_256' else '(%d)' % size, n if isinstance(n, int) else 'any number of' if 'LENH' not in T.show(n) else T.show(n),
                               '' if count is None else ', %d times' % count)
    p, o = a.inp('X', n), a.out(size + 64)
    args = ([size] if prim != 'sha2_256' else []) + [p, n] + ([count] if count is not None else []) + [o]
    v, ex = a.call(driver, *args)
    c.use(a.eng)
    c.true('no-error', nm, v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    if v is None or not c.equal('length', nm, v, size, 64, l):
        return
    w = SP.hashv(prim, size if prim != 'sha2_256' else 32, segs_of('X', n)) if size else 0
    for _ in range((count or 1) - 1):
        w = SP.hashv(prim, 32, SP.B(w, 32))
    if size:
        c.equal('value', nm, a.mem(o, 0, size), w, 8 * size, l)
        if not isinstance(n, S) and n:
            c.equal('input-only-read', nm, a.mem(p, 0, n), inb('X', n), 8 * n, l)


def many_hash(c, n, count):
    """sha2_256_n with a large count: call k of SHA-256 gives a fresh unknown; its input must be the whole of the unknown before"""
    calls = []

    def m(eng, fr, ins, args, st):
        inp, inlen, out, outlen = args
        segs = canon_segs(eng.copy_out(st, inp, inlen), st)
        calls.append(segs)
        if st.simp(outlen) != 32:
            raise Undecided('SHA-256 written to %r bytes' % (outlen,))
        eng.copy_in(st, out, [('v', 32, T.var('R%d' % len(calls), 256))])
        return None
    a = X.Api(table=False, models={'vsa_sha256': m})
    a.eng.spin = ()      # every call is counted
    l = floc(a, 'sha2_256_n')
    nm = 'sha2_256_n of %d bytes, %d times' % (n, count)
    p, o = a.inp('X', n), a.out(64)
    v, ex = a.call('vsa_vsha2n', p, n, count, o)
    c.use(a.eng)
    if not c.true('no-error', nm, v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l) or not c.equal('length', nm, v, 32, 64, l):
        return
    bad = [k for k in range(1, len(calls)) if calls[k] != SP.rope(SP.B(T.var('R%d' % k, 256), 32))]
    if bad or calls and calls[0] != SP.rope(SP.B(inb('X', n), n)):
        raise Undecided('call %d of SHA-256 hashes something else' % (bad[0] if bad else 0))      # decided by the smaller counts
    c.true('count', nm, len(calls) == count, 'the hash is applied %d times' % len(calls), l)
    c.equal('value', nm, a.mem(o, 0, 32), T.var('R%d' % len(calls), 256), 256, l)


def raw_sha(c, n):
    prog = PR.load(['shasha'], need=['sha2_256'])
    f = prog.find('sha2_256')
    eng, st = I.Engine(prog, PRIMS), I.State()
    o, i = eng.new_obj(st, 'out', 40), eng.input_obj(st, 'X', n)
    st.mem[o].write(0, 40, T.var('OLD', 320))
    r = eng.call(f, [Ptr(o), Ptr(i), n], st)
    c.use(eng)
    nm = 'sha2_256 (pointers) of %s bytes' % (n if isinstance(n, int) else 'any number of' if 'LENH' not in T.show(n) else T.show(n))
    if not c.true('no-error', nm, r is not None, '', loc(f)):
        return
    c.equal('value', nm, r[1].mem[o].read(0, 32), SP.hashv('sha2_256', 32, segs_of('X', n)), 256, loc(f))
    c.equal('writes-32-bytes', nm, r[1].mem[o].read(32, 8), T.extract(T.var('OLD', 320), 320, 256, 64), 64, loc(f))


HASH_INPUTS = (0, 1, 2, 31, 32, 33, 48, 51, 55, 56, 63, 64, 65, 96, 128, 135, 136, 137, 167, 168, 169, 255, 256, 257, 1000, 4097, 65535, 65536, 65537, 70000, (1 << 20) + 1)


@check('C29', 'proof', 'abstract interpretation of LLVM IR of the hash helpers with opaque SHAKE and SHA-256',
       'shake128, shake256, sha2_256 and sha2_256_n over byte vectors and the pointer form of sha2_256 are interpreted with abstract content, '
       'for any input length (symbolic) and an enumerated set, and for enumerated output sizes and repetition counts; the returned vector must have exactly '
       'the size asked for and be the full hash of exactly the input.')
def c29(c):
    anyn = T.add(T.var('LEN', 64, hi=(1 << 40) - 1), 1, 64)        # the empty input is in the list below
    ins = HASH_INPUTS + ((4096, 5001, 1 << 17, (1 << 24) + 1) if c.thorough else ())
    for n in (anyn, *T.huge('LENH')) + ins:
        k = 'any length' if n is anyn else n if isinstance(n, int) else T.show(n)
        for fn in ('shake128', 'shake256'):
            for size in (32, 64, 0, 1, 48, 136, 168, 337, 673, 1000, 5000, 65537) if n in (32, 48) and not isinstance(n, S) else (32, 64):
                c.section('value', '%s(%s) of %s' % (fn, size, k), vec_hash, c, 'vsa_v' + fn, fn, fn, n, size)
        c.section('value', 'sha2_256 of %s' % k, vec_hash, c, 'vsa_vsha2', 'sha2_256', 'sha2_256', n, 32)
        c.section('value', 'sha2_256 (pointers) of %s' % k, raw_sha, c, n)
        for count in (1, 2, 3, 4, 5, 8, 17, 64, 257) if n in (32, 48) and not isinstance(n, S) else (1, 2, 3):
            c.section('value', 'sha2_256_n(%d) of %s' % (count, k), vec_hash, c, 'vsa_vsha2n', 'sha2_256_n', 'sha2_256', n, 32, count)
    for count in (255, 256, 258, 65537) + ((65535, 65536, 70000, 131073) if c.thorough else ()):
        c.section('count', 'sha2_256_n(%d)' % count, many_hash, c, 32, count)
    for n in (0, 1, 32):
        a = X.Api(table=False)
        v, ex = a.call('vsa_vsha2n', a.inp('X', n), n, 0, a.out(64))
        c.use(a.eng)
        invalid(c, 'count-zero-refused', 'sha2_256_n of %d bytes, zero times' % n, v, ex, floc(a, 'sha2_256_n'), 'a value is returned')


# ------------------------------------------------------------------ C16
OSGEN = ('/dev/urandom', '/dev/random')


class Source:
    """the operating-system generator: opening may fail, reads may be short"""

    def __init__(self, openfail=False, avail=None):
        self.openfail, self.avail = openfail, avail
        self.total = 0          # bytes delivered
        self.paths = []
        self.short = False
        self.how = set()

    def m_open(self, eng, fr, ins, a, st):
        p = eng.cstr(st, a[0])
        if p is None:
            raise Undecided('name of the file opened is not constant')
        self.paths.append((p, eng.where()))
        return 0 if self.openfail else 3

    def deliver(self, eng, st, buf, n):
        n = st.simp(n)
        if not isinstance(n, int):
            raise Undecided('number of bytes read is not constant')
        k = n if self.avail is None else max(0, min(n, self.avail - self.total))
        if k < n:
            self.short = True
        if k:
            eng.copy_in(st, buf, [('s', k, T.seq('RND', None), self.total)])
        self.total += k
        return k

    def m_read(self, eng, fr, ins, a, st):
        return self.deliver(eng, st, a[1], a[2])

    # POSIX and C library forms
    def m_open3(self, eng, fr, ins, a, st):
        r = self.m_open(eng, fr, ins, a, st)
        return r or T.mask(32)

    def m_fopen(self, eng, fr, ins, a, st):
        return Ptr(eng.new_obj(st, 'FILE', 8, 0)) if self.m_open(eng, fr, ins, a, st) else 0

    def m_fread(self, eng, fr, ins, a, st):
        sz, n = st.simp(a[1]), st.simp(a[2])
        if not isinstance(sz, int) or not isinstance(n, int) or sz == 0:
            raise Undecided('fread of unknown size')
        return self.deliver(eng, st, a[0], sz * n) // sz

    def m_readfd(self, eng, fr, ins, a, st):
        if self.openfail:
            return T.mask(64)
        return self.deliver(eng, st, a[1], a[2])

    def m_getrandom(self, eng, fr, ins, a, st):
        self.paths.append(('/dev/urandom', eng.where()))
        if self.openfail:
            return T.mask(64)
        return self.deliver(eng, st, a[0], a[1])

    def m_getentropy(self, eng, fr, ins, a, st):
        self.paths.append(('/dev/urandom', eng.where()))
        n = st.simp(a[1])
        if self.openfail or not isinstance(n, int) or n > 256 or (self.avail is not None and self.avail < n):
            self.short = True
            return T.mask(32)
        self.deliver(eng, st, a[0], n)
        return 0

    def models(self):
        e = lambda eng, fr, ins, a, st: 0
        return {'vsa_file_open': self.m_open, 'vsa_file_read': self.m_read, 'open': self.m_open3, 'open64': self.m_open3, 'read': self.m_readfd, 'close': e,
                'fopen': self.m_fopen, 'fopen64': self.m_fopen, 'fread': self.m_fread, 'fclose': e, 'getrandom': self.m_getrandom,
                'getentropy': self.m_getentropy, 'setvbuf': e, '__errno_location': lambda eng, fr, ins, a, st: Ptr(eng.new_obj(st, 'errno', 4, 5))}


def seed_run(c, size, ent, **kw):
    s = Source(**kw)
    a = X.Api(table=False, models=s.models())
    p = a.inp('ENT', ent)
    o = a.out(2 * size + 64)
    v, ex = a.call('vsa_random_seed', size, p, ent, o)
    c.use(a.eng)
    return a, s, o, v, ex, floc(a, 'getRandomSeed')


def seed_ok(c, size, ent):
    nm = 'seed of %d bytes, %d bytes of caller entropy' % (size, ent)
    a, s, o, v, ex, l = seed_run(c, size, ent)
    c.true('complete-read-succeeds', nm, v is not None and not ex, 'raises %s' % [excname(e) for e in ex], l)
    for p, w in s.paths:
        c.true('os-generator', nm + ': opens ' + p, p in OSGEN, 'reads seed material from %s' % p, w)
    if v is None or not c.equal('length', nm, v, size, 64, l):
        return
    if size == 0:
        return
    got = a.mem(o, 0, size)
    if c.true('full-entropy', nm + ': bytes requested', s.total >= size, 'only %d bytes are read from the generator for a seed of %d' % (s.total, size), l):
        want = SP.hashv('shake256', size, SP.B(inb('RND', size), size), *([SP.B(inb('ENT', ent), ent)] if ent else []))
        if isinstance(got, (int, S)) and got == want:
            for i in range(size):
                c.ok('every-byte-depends', nm + ': byte %d' % i, 'is SHAKE256(generator || entropy)', l)
            return
        # another construction: every byte of the seed has to depend on the generator, and on every byte of it
        rnd = T.seq('RND', None)
        for i in range(size):
            x = T.extract(got, 8 * size, 8 * i, 8) if isinstance(got, (int, S)) else got
            if isinstance(x, S) and any(I.mentions(p, rnd.id) for p in x.ps):
                c.ok('every-byte-depends', nm + ': byte %d' % i, T.show(x)[:200], l)
            elif isinstance(x, (int, S)):
                c.bad('every-byte-depends', nm + ': byte %d' % i, 'the byte is %s, which does not depend on the generator' % T.show(x)[:300], l)
            else:
                c.und('every-byte-depends', nm + ': byte %d' % i, 'not determined: %r' % (x,), l)
        if isinstance(got, S):
            for j in range(size):
                c.true('every-byte-counts', nm + ': generator byte %d' % j, influences(got, 'RND', j, size), 'the seed is the same whatever byte %d of the generator output is' % j, l)


def influences(t, name, j, n):
    """does byte j of the named input change the term (None: not evaluable)"""
    try:
        for k in range(6):
            r = bytearray(R.prf(k, 'in') * (n // 32 + 1))[:max(n, j + 1)]
            x = R.Valuation(k, {name: bytes(r)}).val(t)
            r[j] ^= 1 << k
            if R.Valuation(k, {name: bytes(r)}).val(t) != x:
                return True
    except R.CantEval:
        return None
    return False


def seed_fail(c):
    for size, ent in ((1, 0), (3, 0), (32, 0), (48, 0), (48, 5), (51, 0), (100, 0)):
        nm = 'seed of %d bytes, %d of entropy, ' % (size, ent)
        a, s, o, v, ex, l = seed_run(c, size, ent, openfail=True)
        if s.paths or v is not None:
            c.true('open-failure-raises', nm + 'generator cannot be opened', v is None and bool(ex), 'a seed is returned although the generator could not be opened', l)
        for k in sorted({0, 1, size // 2, size - 1} & set(range(size))):
            a, s, o, v, ex, l = seed_run(c, size, ent, avail=k)
            if s.short or v is None:
                c.true('short-read-raises', nm + '%d bytes delivered' % k, v is None and bool(ex), 'a seed is returned although the generator delivered %d bytes' % k, l)


# predictable generators, by qualified name prefix of a called function
PREDICTABLE = ('rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'erand48', 'rand_r', 'time', 'clock', 'gettimeofday', 'clock_gettime',
               'getpid', 'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now', 'std::rand', 'std::srand', 'std::time')
PREDICTABLE_CLASS = ('std::mersenne_twister_engine', 'std::linear_congruential_engine', 'std::subtract_with_carry_engine', 'std::discard_block_engine',
                     'std::shuffle_order_engine', 'std::minstd', 'std::ranlux')


def who_calls(c):
    """no function of the library calls a predictable generator"""
    from .. import klass as K
    n = 0
    progs = [('text', X.program()), ('class', K.program()), ('pq', PR.load(['pq'], need=False))]
    seen = set()
    for tag, p in progs:
        for m in p.mods:
            for nm, f in m.funcs.items():
                if (m.path, nm) in seen:
                    continue
                seen.add((m.path, nm))
                f.parse()
                l = f.loc()
                if not l or not l[0] or not os.path.join(PR.REPO, l[0]).startswith(PR.REPO + '/src'):
                    continue
                n += 1
                for b in f.blocks.values():
                    for i in b.insts:
                        if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
                            d = p.base(i.x['callee'][1])
                            if d in PREDICTABLE or d.startswith(PREDICTABLE_CLASS):
                                at = f.mod.loc(i.dbg) if i.dbg else l
                                c.bad('no-predictable-generator', '%s calls %s' % (p.base(nm), d), 'call of a predictable source', at)
        for s, e in p.failed:
            c.und('no-predictable-generator', os.path.relpath(s, PR.REPO), 'not compiled here: %s' % e[-200:])
    c.ok('no-predictable-generator', '%d compiled C and C++ functions' % n, 'no call of %s' % ', '.join(PREDICTABLE[:6]))


JSF = 'src/jswrapper/getRandomSeed.js'


class Feed:
    """Web Crypto: fills whole arrays with consecutive entropy symbols, or fails"""

    def __init__(self, fail=False):
        self.n = 0
        self.fail = fail
        self.calls = 0

    def __call__(self, it, arr):
        self.calls += 1
        if self.fail:
            raise J.Throw(J.Obj('QuotaExceededError', {'message': 'no entropy'}))
        if not (isinstance(arr, J.Obj) and arr.items is not None and arr.cls == 'Uint8Array'):
            raise J.err('TypeMismatchError')
        if len(arr.items) > 65536:
            raise J.Throw(J.Obj('QuotaExceededError', {'message': 'quota'}))
        for i in range(len(arr.items)):
            arr.items[i] = J.Sym(('tok', self.n))
            self.n += 1
        return arr


def js_run(c, tree, args, crypto_at=('globalThis',), deliver=None, first=None):
    """all paths of getRandomSeed(...args): [(interp, feed, kind, value)]"""
    out = []
    feeds = []

    def make(ch):
        f = deliver() if deliver is not None and deliver != 'nofunc' else deliver
        feeds.append(f)
        g = J.std(crypto_at, f)
        it = J.Interp(g, ch)
        it.feed = f
        return it

    def go(it):
        env = J.Env(it.glob)
        it.hoist(tree, it.glob)
        try:
            it.block(tree, it.glob)
            f = it.glob.v['Module'].props.get('getRandomSeed', J.UNDEF)
            return 'return', it.call(f, it.glob.v['Module'], list(args))
        except J.Throw as t:
            return 'throw', t.v
    for it, (k, v) in J.explore(make, go, first=first):
        out.append((it, it.feed, k, v))
    return out


def js_elem(c, nm, it, k, x, total, l):
    """element k of the seed: a bijection of one entropy byte; returns that byte's number"""
    ts = sorted(J.toks(x, set())) if isinstance(x, J.Sym) else []
    if not ts:
        c.bad('every-byte-depends', nm + ': byte %d' % k, 'the byte is %r, which does not depend on the generator' % (x,), l)
        return None
    if len(ts) == 1:
        t = ts[0]
        dom = list(it.poss.get(t, range(256)))
        img = [J.ev(x, {t: b}) for b in dom]
        ok = all(isinstance(v, int) and 0 <= v <= 255 for v in img) and len(set(img)) == len(dom)
        c.true('every-byte-depends', nm + ': byte %d' % k, ok, 'the byte is %r, which takes %d of %d values' % (x, len(set(img)), len(dom)), l)
    else:
        c.ok('every-byte-depends', nm + ': byte %d' % k, repr(x)[:200], l)
    return ts


def js_sizes(c, tree, sizes):
    for size in sizes:
        want = 48 if size is None else size
        nm = 'getRandomSeed(%s)' % ('' if size is None else size)
        n = 0
        for it, feed, k, v in js_run(c, tree, [] if size is None else [size], deliver=Feed):
            n += 1
            l = '%s:%d' % (JSF, it.line)
            for w, line in it.predictable:
                c.bad('no-predictable-generator', '%s uses %s' % (nm, w), 'predictable value requested', '%s:%d' % (JSF, line))
            if k == 'throw':
                # only a delivery of nothing but zeros may be refused
                z = all(it.poss.get(i) == [0] for i in range(feed.n)) and feed.n
                c.true('complete-read-succeeds', nm, bool(z), 'raises %r' % (v.props if isinstance(v, J.Obj) else v,), l)
                continue
            if not (isinstance(v, J.Obj) and hasattr(v, 'vec')):
                if isinstance(v, J.Obj) and v.items is not None:
                    vec = list(v.items)
                else:
                    c.und('length', nm, 'result is %r' % (v,), l)
                    continue
            else:
                vec = v.vec
            if not c.true('length', nm, len(vec) == want, 'the seed has %d bytes, not %d' % (len(vec), want), l):
                continue
            used = {}
            for i, x in enumerate(vec):
                for t in js_elem(c, nm, it, i, x, feed.n, l) or ():
                    used.setdefault(t, []).append(i)
            c.true('full-entropy', nm, len(used) >= want, 'a seed of %d bytes is made of %d generator bytes' % (want, len(used)), l)
        c.true('complete-read-succeeds', nm + ': some path returns', n > 0, '', JSF)


def js_fail(c, tree):
    for args in ([], [1], [16], [48], [51]):
        nm = 'getRandomSeed(%s)' % ', '.join(map(str, args))
        for what, kw, must in (('no Web Crypto', dict(deliver=None), True), ('crypto without getRandomValues', dict(deliver='nofunc'), True),
                               ('getRandomValues raises', dict(deliver=lambda: Feed(True)), True),
                               ('crypto on self only', dict(deliver=Feed, crypto_at=('self',)), False), ('crypto on window only', dict(deliver=Feed, crypto_at=('window',)), False)):
            for it, feed, k, v in js_run(c, tree, args, **kw):
                l = '%s:%d' % (JSF, it.line)
                for w, line in it.predictable:
                    c.bad('no-predictable-generator', '%s, %s: uses %s' % (nm, what, w), 'predictable value requested', '%s:%d' % (JSF, line))
                if must:
                    c.true('failure-raises', '%s, %s' % (nm, what), k == 'throw', 'a seed is returned: %r' % (getattr(v, 'vec', v),), l)
                elif k == 'return' and isinstance(v, J.Obj) and hasattr(v, 'vec'):
                    for i, x in enumerate(v.vec):
                        js_elem(c, '%s, %s' % (nm, what), it, i, x, feed.n, l)
    for n in (65537, 70000):
        for it, feed, k, v in js_run(c, tree, [n], deliver=lambda: Feed(True)):
            c.true('failure-raises', 'getRandomSeed(%d), quota exceeded' % n, k == 'throw', 'a seed is returned', JSF)


ODD_SIZES = (0, -1, 0.5, 1.5, 15.5, 47.5, 48.5, 48.999, math.nan, math.inf, True, False, None, '', '16', '48', '48.5', 'x', '0x30')


def js_odd(c, tree):
    """a size that is no positive integer: refused, or a seed every byte of which depends on the generator"""
    arrs = [[48], [16, 3], [], [[48]]]

    def arr(x):
        o = J.Obj('Array')
        o.items = [arr(y) if isinstance(y, list) else y for y in x]
        return o
    for a, nm in [(x, repr(x)) for x in ODD_SIZES] + [(arr(x), repr(x)) for x in arrs] + [(J.Obj('Object'), '{}')]:
        nm = 'getRandomSeed(%s)' % nm
        for it, feed, k, v in js_run(c, tree, [a], deliver=Feed):
            l = '%s:%d' % (JSF, it.line)
            if k == 'throw':
                c.ok('odd-size', nm, 'raises')
                continue
            vec = v.vec if isinstance(v, J.Obj) and hasattr(v, 'vec') else v.items if isinstance(v, J.Obj) else None
            if vec is None:
                c.und('odd-size', nm, 'result is %r' % (v,), l)
                continue
            for i, x in enumerate(vec):
                js_elem(c, nm, it, i, x, feed.n, l)
    for n in (65535, 65536, 65537, 65600, 70000, 131072):
        # the first path: a delivery that is not all zero
        for it, feed, k, v in js_run(c, tree, [n], deliver=Feed, first=1):
            nm = 'getRandomSeed(%d)' % n
            l = '%s:%d' % (JSF, it.line)
            if k == 'throw':
                c.true('complete-read-succeeds', nm, n > 65536, 'raises', l)
                continue
            vec = v.vec if isinstance(v, J.Obj) and hasattr(v, 'vec') else v.items if isinstance(v, J.Obj) else None
            if vec is None:
                c.und('large-size', nm, 'result is %r' % (v,), l)
                continue
            c.true('length', nm, len(vec) == n, 'the seed has %d bytes' % len(vec), l)
            dead = [i for i, x in enumerate(vec) if not (isinstance(x, J.Sym) and J.toks(x, set()))]
            c.true('every-byte-depends', nm, not dead, '%d bytes, the first of them byte %d, do not depend on the generator' % (len(dead), dead[0] if dead else -1), l)


def js_names(c, trees):
    bad = {'Math': ('random',), 'Date': None, 'performance': ('now', 'timeOrigin')}
    for f, t in trees.items():
        rel = os.path.relpath(f, PR.REPO)
        n = [0]

        def v(x):
            n[0] += 1
            if x.get('k') in ('PropertyAccessExpression', 'ElementAccessExpression') and x['expression'].get('k') == 'Identifier' and x['expression']['escapedText'] in bad:
                m = x['name']['escapedText'] if 'name' in x else x['argumentExpression'].get('text')
                w = bad[x['expression']['escapedText']]
                if m is not None and (w is None or m in w):
                    c.bad('no-predictable-generator', '%s uses %s.%s' % (rel, x['expression']['escapedText'], m), 'predictable source', '%s:%d' % (rel, x['line']))
            if x.get('k') == 'NewExpression' and x['expression'].get('escapedText') == 'Date':
                c.bad('no-predictable-generator', '%s uses new Date' % rel, 'predictable source', '%s:%d' % (rel, x['line']))
        J.walk(t['statements'], v)
        c.ok('no-predictable-generator', rel, '%d syntax nodes' % n[0])


def js_all(c):
    fs = sorted(os.path.join(d, f) for d, _, fl in os.walk(PR.REPO + '/src') for f in fl if f.endswith('.js'))
    trees = J.parse(fs)
    js_names(c, trees)
    t = trees.get(PR.REPO + '/' + JSF)
    if t is None or t['errors']:
        raise Undecided('%s not found or not parsed' % JSF)
    sizes = (None, 1, 2, 8, 15, 16, 17, 32, 48, 51) + ((64, 96, 136, 200, 500) if c.thorough else (64,))
    c.section('every-byte-depends', JSF, js_sizes, c, t['statements'], sizes)
    c.section('failure-raises', JSF, js_fail, c, t['statements'])
    c.section('odd-size', JSF, js_odd, c, t['statements'])


@check('C16', 'proof', 'abstract interpretation of the C++ and JavaScript seed generators under every failure point of the source; call-site rule over all code',
       'getRandomSeed (C++, LLVM IR) is interpreted with the operating-system generator abstract: full, unopenable and short deliveries at '
       'several points; a seed is returned only after a full delivery and each byte is a hash of all of it.  getRandomSeed.js is interpreted '
       'from its syntax tree with Web Crypto present, missing and failing.  No call site in the library may use a predictable generator.')
def c16(c):
    for size, ent in ((0, 0), (1, 0), (3, 0), (16, 0), (32, 7), (48, 0), (48, 1), (48, 40), (51, 3), (100, 0), (48, 100), (48, 300), (137, 9), (300, 0), (300, 300)) + (((136, 0), (1000, 0), (2000, 70), (48, 5000)) if c.thorough else ()):
        c.section('every-byte-depends', 'seed of %d bytes' % size, seed_ok, c, size, ent)
    c.section('short-read-raises', 'getRandomSeed', seed_fail, c)
    c.section('no-predictable-generator', 'call sites', who_calls, c)
    c.section('every-byte-depends', 'JavaScript', js_all, c)
