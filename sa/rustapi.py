"""Driving the Rust library: drivers in program.RUST_SCOPE wrap operations on
raw buffers; library and generic std code is interpreted."""
from . import terms as T, program as PR
from .interp import Engine, State, Ptr
from .terms import Undecided
from .models import PRIMS

_n = [0]


def m_alloc(zero):
    def m(eng, fr, ins, a, st):
        _n[0] += 1
        o = eng.new_obj(st, 'rheap#%d@%s' % (_n[0], eng.site()), st.simp(a[0]), 0 if zero else None, kind='heap')
        return Ptr(o)
    return m


def m_realloc(eng, fr, ins, a, st):
    p, old, al, new = a
    _n[0] += 1
    q = Ptr(eng.new_obj(st, 'rheap#%d@%s' % (_n[0], eng.site()), st.simp(new), kind='heap'))
    eng.copy_in(st, q, eng.copy_out(st, p, old))
    return q


def m_nop(eng, fr, ins, a, st):
    return None


RUST = {'__rustc::__rust_alloc': m_alloc(False), '__rustc::__rust_alloc_zeroed': m_alloc(True), '__rustc::__rust_dealloc': m_nop,
        '__rustc::__rust_realloc': m_realloc, '__rustc::__rust_no_alloc_shim_is_unstable_v2': m_nop,
        '__rustc::__rust_no_alloc_shim_is_unstable': m_nop}


class Api:
    def __init__(self, prog=None, models=None, unroll=5000):
        self.prog = prog or PR.load_rust()
        m = dict(RUST)
        m.update(models or {})
        self.eng = Engine(self.prog, m, unroll=unroll)
        self.st = State()
        self.n = 0

    def inp(self, name, n, value=None):
        o = self.eng.input_obj(self.st, name, n) if value is None else self.eng.new_obj(self.st, name, n)
        if value is not None:
            self.st.mem[o].write(0, n, value)
        return Ptr(o)

    def out(self, n):
        self.n += 1
        return Ptr(self.eng.new_obj(self.st, 'out%d' % self.n, n))

    def call(self, name, *args):
        """(value, panics); value None when the call always panics"""
        f = self.prog.find(name)
        if f is None:
            raise Undecided('driver %s not available' % name)
        self.eng.events = []
        r = self.eng.call(f, list(args), self.st)
        ev = [e for e in self.eng.events if e[0] == 'panic']
        if r is None:
            return None, ev
        self.st = r[1]
        return r[0], ev

    def mem(self, p, off, n):
        return self.st.mem[p.obj].read(off, n)


class RustDesc:
    name = 'Rust'

    def __init__(self):
        self.prog = PR.load_rust()
        f = self.prog.find('qrllib::rust_wrapper::qrl::qrl_descriptor::QRLDescriptor::from_bytes') or \
            self.prog.find('<qrllib::rust_wrapper::qrl::qrl_descriptor::QRLDescriptor>::from_bytes')
        self.loc = f.loc() if f else None
        self.last = None

    def decode(self, kind, n, wr):
        a = Api(self.prog)
        p = a.inp('D', n)
        for i, v in enumerate(wr):
            if v is not None:
                a.st.mem[p.obj].write(i, 1, v)
        f, b = a.out(16), a.out(3)
        v, ev = a.call({'bytes': 'vsar_desc_from', 'seed': 'vsar_desc_seed', 'pk': 'vsar_desc_pk'}[kind], p, n, f, b)
        self.last = a.eng
        if v is None:
            return 'refused', ev
        if v == 1000:
            return 'refused', 'Err'
        return [a.mem(f, 4 * i, 4) for i in range(4)], a.mem(b, 0, 3), ev

    def encode(self, hf, st, h, af):
        a = Api(self.prog)
        f, b = a.out(16), a.out(3)
        v, ev = a.call('vsar_desc_new', hf, h, f, b)
        self.last = a.eng
        if v is None or ev:
            raise Undecided('panics %s' % ev)
        return [a.mem(f, 4 * i, 4) for i in range(4)], a.mem(b, 0, 3)
