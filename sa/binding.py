"""The JavaScript bindings as registered: interpreting EMSCRIPTEN_BINDINGS gives, for every JavaScript name, the function registered under
it (stubs/include/emscripten/bind.h), which is then interpreted like any other function."""
from . import terms as T
from .interp import Ptr, Fn
from .terms import Undecided


class Binding:
    def __init__(self, a, prefix=''):
        """a: an Api (its state is left unchanged)"""
        self.fns, self.values, self.seen = {}, {}, []
        fs = sorted({f.name: f for m in a.prog.mods for f in m.funcs.values()
                     if 'vsa_bindings_' in f.name and prefix in m_path(f)}.values(), key=lambda f: f.name)
        if not fs:
            raise Undecided('no EMSCRIPTEN_BINDINGS found: %s' % '; '.join(x[1][-300:] for x in a.prog.failed))
        keep = dict(a.eng.models)
        a.eng.models['vsa_bind'] = self.m_bind
        a.eng.models['vsa_bind_value'] = self.m_value
        try:
            for f in fs:
                a.eng.call(f, [], a.st.fork())
        finally:
            a.eng.models = keep

    def m_bind(self, eng, fr, ins, args, st):
        cls, name, entry, box, size = [st.simp(x) for x in args]
        cls, name = eng.cstr(st, cls), eng.cstr(st, name)
        if cls is None or name is None or not isinstance(entry, Fn) or not isinstance(size, int) or size > 64:
            raise Undecided('registration not determined at %s' % eng.where())
        ws = [eng.load(st, Ptr(box.obj, box.off + i), 8) for i in range(0, size, 8)] if size % 8 == 0 else []
        self.fns.setdefault((cls, name), []).append((entry.fn, ws))

    def m_value(self, eng, fr, ins, args, st):
        en, name, v = [st.simp(x) for x in args]
        self.values[(eng.cstr(st, en), eng.cstr(st, name))] = v

    def where(self, a, cls, name):
        r = self.fns.get((cls, name))
        if r:
            for w in r[0][1]:
                if isinstance(w, Fn) and w.fn is not None:
                    from .checks.hashes import loc
                    return loc(w.fn)
        return None

    def call(self, a, cls, name, *args, self_=0, out=0):
        """(value, exceptions, buffer, object): integers and enumerations come back as the value, text and bytes as their length"""
        r = self.fns.get((cls, name))
        if r is None:
            raise Undecided('%s%s is not registered' % (cls and cls + '.', name))
        if len(r) != 1:
            raise Undecided('%s.%s is registered %d times' % (cls, name, len(r)))
        entry, ws = r[0]
        eng, st = a.eng, a.st
        box = eng.new_obj(st, 'box', max(8, 8 * len(ws)))
        for i, w in enumerate(ws):
            eng.store(st, Ptr(box, 8 * i), 8, w)
        ins = eng.new_obj(st, 'args', max(16, 16 * len(args)))
        for i, x in enumerate(args):
            p, n = x if isinstance(x, tuple) else (0, x)
            eng.store(st, Ptr(ins, 16 * i), 8, p)
            eng.store(st, Ptr(ins, 16 * i + 8), 8, n)
        buf = a.out(out) if out else 0
        res = eng.new_obj(st, 'result', 16)
        eng.store(st, Ptr(res), 8, buf)
        eng.store(st, Ptr(res, 8), 8, 0)
        eng.exc = []
        v = eng.call(entry, [Ptr(box), self_, Ptr(ins), Ptr(res)], st)
        ex = list(eng.exc)
        eng.exc = []
        if v is None:
            return None, ex, buf, None
        a.st = v[1]
        return a.st.simp(eng.load(a.st, Ptr(res, 8), 8)), ex, buf, eng.load(a.st, Ptr(res), 8)


def m_path(f):
    return f.mod.path
