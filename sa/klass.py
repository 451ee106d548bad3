"""Driving the public C++ classes through the analyser: stubs/drivers/xmss.cpp
wraps each public operation on plain buffers; repository code and libstdc++
templates are interpreted."""
from . import terms as T, program as PR, spec as SP, xmss as X
from .interp import Engine, State, Ptr, DEAD
from .terms import Undecided

ALL = X.HASHES + X.WOTS + ('l_tree',)
GROUPS = ['xmss', 'qrl', 'drv', 'shasha']


def program():
    return PR.load(GROUPS, need=False)


class Api:
    def __init__(self, prog=None, models=None, unroll=5000):
        self.prog = prog or program()
        from .text import string_models
        m = string_models(self.prog)
        m.update(X.opaque(self.prog, ALL))
        m.update(models or {})
        self.eng = Engine(self.prog, m, unroll=unroll)
        self.st = State()
        self.n = 0

    def inp(self, name, n, value=None):
        o = self.eng.input_obj(self.st, name, n) if value is None else self.eng.new_obj(self.st, name, n)
        if value is not None:
            self.st.mem[o].write(0, n, value)
        return Ptr(o)

    def out(self, n):
        self.n += 1
        return Ptr(self.eng.new_obj(self.st, 'out%d' % self.n, n))

    def fn(self, name):
        f = self.prog.find(name)
        if f is None:
            raise Undecided('driver %s not available: %s' % (name, '; '.join(x[1][-300:] for x in self.prog.failed) or 'not found'))
        return f

    def call(self, name, *args):
        """(value, exceptions); the state advances unless the call always raises"""
        self.eng.exc = []
        r = self.eng.call(self.fn(name), list(args), self.st)
        ex = list(self.eng.exc)
        self.eng.exc = []
        if r is None:
            return None, ex
        self.st = r[1]
        return r[0], ex

    def value(self, name, *args):
        v, ex = self.call(name, *args)
        if v is None or ex:
            raise Undecided('%s raises %s' % (name, ex))
        return v

    def bytes(self, name, n, *args):
        o = self.out(n)
        v = self.value(name, *(list(args) + [o]))
        if v != n:
            raise Undecided('%s returns %r bytes, %d expected' % (name, v, n))
        return self.st.mem[o.obj].read(0, n)

    def mem(self, p, off, n):
        return self.st.mem[p.obj].read(off, n)


def genkey_models(prog, idx, parts, log=None):
    """key generation by contract: the secret key holds idx and the given parts"""
    def m(fast):
        def f(eng, fr, ins, a, st):
            if fast:
                hf, params, pk, sk, state, seed = a
            else:
                hf, params, pk, sk, seed = a
            if log is not None:
                log.append((hf, eng.bytes_of(st, seed, 48), eng.load(st, params, 4) if False else None))
            eng.copy_in(st, sk, [('v', 132, T.concat([(SP.be(idx, 32, 4), 32)] + [(p, 256) for p in parts]))])
            eng.copy_in(st, pk, [('v', 64, T.concat([(parts[3], 256), (parts[2], 256)]))])
            return 0
        return f
    out = {}
    for n, sg, fast in (('xmssfast_Genkeypair', 'ippppp', True), ('xmss_Genkeypair', 'ipppp', False)):
        fn = prog.find(n)
        if fn is not None and X.sig_of(fn) == sg:
            out[n] = m(fast)
    return out


def excname(e):
    return str(e.type).replace('_ZTISt', 'std::')
