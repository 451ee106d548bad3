"""Opaque primitives."""
from . import terms as T
from .interp import canon_segs, segs_value
from .terms import Undecided
from .cxx import CXX


def hash_seg(name, segs, outlen):
    a = T.atom('hash', (name, None) + tuple(segs))
    return ('s', outlen, a, 0)


def m_xof(name):
    def m(eng, fr, ins, args, st):
        if len(args) != 4:
            return NotImplemented       # the vector overload
        out, outlen, inp, inlen = args[:4]
        segs = canon_segs(eng.copy_out(st, inp, inlen), st)
        eng.copy_in(st, out, [hash_seg(name, segs, st.simp(outlen))])
        return None
    return m


def m_sha2(eng, fr, ins, args, st):
    if len(args) != 3:
        return NotImplemented
    out, inp, inlen = args[:3]
    segs = canon_segs(eng.copy_out(st, inp, inlen), st)
    eng.copy_in(st, out, [hash_seg('sha2_256', segs, 32)])
    return None


def m_vsa_sha(eng, fr, ins, args, st):
    inp, inlen, out, outlen = args
    n = st.simp(outlen)
    if not isinstance(n, int):
        raise Undecided('SHA-256 written to a range of %r bytes' % (outlen,))
    segs = canon_segs(eng.copy_out(st, inp, inlen), st)
    if n:
        # a shorter range takes the first bytes, the rest of a longer one stays as it was
        eng.copy_in(st, out, [hash_seg('sha2_256', segs, min(n, 32))])
    return None


PRIMS = dict(CXX)
PRIMS.update({'shake128': m_xof('shake128'), 'shake256': m_xof('shake256'), 'sha2_256': m_sha2, 'vsa_sha256': m_vsa_sha})
