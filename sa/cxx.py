"""Models of the C++ runtime (allocation, exceptions) used when the class layer
is interpreted.  Containers are not modelled: libstdc++'s own template code is
interpreted."""
from . import terms as T
from .interp import Ptr, Exc, DEAD, Obj, State, record_output, i2p
from .terms import Undecided

_n = [0]


def m_new(eng, fr, ins, a, st):
    n = st.simp(a[0])
    _n[0] += 1
    o = eng.new_obj(st, 'heap#%d@%s' % (_n[0], eng.site()), n, kind='heap')
    return Ptr(o)


def m_delete(eng, fr, ins, a, st):
    return None


def m_alloc_exc(eng, fr, ins, a, st):
    return Ptr(eng.new_obj(st, 'exception@%s' % (eng.site(),), a[0], kind='heap'))


def throw(eng, st, ty, obj=None):
    eng.exc.append(Exc(ty, st, st.pc, eng.where(), obj))
    return DEAD


def m_throw(eng, fr, ins, a, st):
    t = a[1]
    nm = t.obj.name if isinstance(t, Ptr) else getattr(t, 'name', str(t))
    return throw(eng, st, nm.lstrip('@'), a[0])


def thrower(ty):
    return lambda eng, fr, ins, a, st: throw(eng, st, ty)


def m_nop(eng, fr, ins, a, st):
    return None


def m_ret0(eng, fr, ins, a, st):
    return 0


def m_first(eng, fr, ins, a, st):
    return a[0]


def m_begin_catch(eng, fr, ins, a, st):
    e = a[0]
    if isinstance(e, Exc) and e.obj is not None:
        return e.obj
    return Ptr(eng.new_obj(st, 'caught', 64, kind='heap'))


def m_exc_text(eng, fr, ins, a, st):
    """an exception object keeps the text it is given"""
    p = a[1] if len(a) > 1 else None
    if isinstance(p, Ptr):
        d = eng.prog.dem(ins.x['callee'][1]) if ins.x['callee'][0] == 'g' else ''
        n = None
        if 'basic_string' in d:
            q, n = eng.load(st, p, 8), eng.load(st, Ptr(p.obj, T.add(p.off, 8, 64)), 8)
            p = i2p(q)
        if isinstance(p, Ptr):
            record_output(eng, ins, [p] if n is None else [None, p, n], st, 'exception' if n is None else 'exception::write')
    return None


def m_terminate(eng, fr, ins, a, st):
    eng.events.append(('terminate', '', eng.where(), st.pc))
    return DEAD


def m_rethrow(eng, fr, ins, a, st):
    f = fr
    while f is not None:
        e = f.regs.get('<exc>')
        if isinstance(e, Exc):
            return throw(eng, st, e.type, e.obj)
        f = f.parent
    raise Undecided('rethrow outside a handler')



def m_guard_release(eng, fr, ins, a, st):
    eng.store(st, a[0], 1, 1)
    return None


CXX = {
    'operator new': m_new, 'operator new[]': m_new, 'operator delete': m_delete, 'operator delete[]': m_delete,
    'malloc': m_new, 'free': m_delete,
    '__cxa_allocate_exception': m_alloc_exc, '__cxa_free_exception': m_nop, '__cxa_throw': m_throw,
    '__cxa_begin_catch': m_begin_catch, '__cxa_end_catch': m_nop, '__cxa_rethrow': m_rethrow,
    '__clang_call_terminate': m_terminate, 'std::terminate': m_terminate, '__cxa_atexit': m_ret0,
    'std::__throw_length_error': thrower('_ZTISt12length_error'),
    'std::__throw_logic_error': thrower('_ZTISt11logic_error'),
    'std::__throw_out_of_range_fmt': thrower('_ZTISt12out_of_range'),
    'std::__throw_out_of_range': thrower('_ZTISt12out_of_range'),
    'std::__throw_bad_alloc': thrower('_ZTISt9bad_alloc'),
    'std::__throw_bad_array_new_length': thrower('_ZTISt20bad_array_new_length'),
    'std::__throw_invalid_argument': thrower('_ZTISt16invalid_argument'),
    'std::__throw_system_error': thrower('_ZTISt12system_error'),
    '__cxa_guard_acquire': lambda *a: 1, '__cxa_guard_release': m_guard_release, '__cxa_guard_abort': m_nop,
}
for _e in ('invalid_argument', 'runtime_error', 'logic_error', 'out_of_range', 'length_error', 'domain_error', 'range_error', 'overflow_error'):
    CXX['std::%s::%s' % (_e, _e)] = m_exc_text
    CXX['std::%s::~%s' % (_e, _e)] = m_nop
CXX['std::exception::~exception'] = m_nop
CXX['std::exception::what'] = lambda eng, fr, ins, a, st: Ptr(eng.new_obj(st, 'what', 1, 0))


def caught(nm):
    return nm
