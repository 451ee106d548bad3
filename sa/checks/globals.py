"""C19: the library keeps no mutable state outside the objects passed to it."""
import re
from .. import program as PR
from ..core import check

GROUPS = ['xmss', 'qrl', 'shasha', 'pq', 'js']
READ_EXT = {'memcmp', 'strlen', 'strcmp', 'strncmp', 'bcmp', 'memchr', 'printf', 'fprintf', 'puts', 'fputs', 'fwrite', '__cxa_throw', 'strchr'}
WRITE_EXT = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'sprintf': (0,), 'snprintf': (0,), 'strcat': (0,),
             'realloc': (0,), 'free': (0,), 'operator delete': (0,), 'operator delete[]': (0,), 'fread': (0,), 'std::swap': (0, 1)}
SYNC = re.compile(r'union\.pthread_(mutex|rwlock|cond|once)_t|(class|struct)\.std::(mutex|recursive_mutex|shared_mutex|timed_mutex|once_flag|condition_variable)\b|pthread_once')


def initialiser(f):
    return f.name.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I', '_GLOBAL__I', '__cxx_global_array_dtor'))


def ops_of(v, out):
    """globals named inside an operand"""
    if not isinstance(v, tuple):
        return
    if v[0] == 'g':
        out.add(v[1])
    elif v[0] == 'gepc':
        for _, o in v[2]:
            ops_of(o, out)
    elif v[0] == 'castc':
        ops_of(v[3], out)
    elif v[0] == 'binc':
        ops_of(v[3], out)
        ops_of(v[4], out)
    elif v[0] == 'agg':
        for _, o in v[2]:
            ops_of(o, out)


class Flow:
    """what is done through a pointer: interprocedural, flow-insensitive on SSA registers"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.nfun = set()

    def callee(self, f, i):
        c = i.x['callee']
        if c[0] != 'g':
            return None, None
        g = f.mod.funcs.get(c[1]) or self.prog.external(c[1])
        return c[1], g

    def run(self, f, glob=None, params=(), skip=()):
        """-> (writes [(inst, why)], unknown [(inst, why)], returns derived?)"""
        f.parse()
        self.nfun.add(f.name)
        der = {f.params[k][0] for k in params if k < len(f.params)}
        cells = set()
        writes, unk = [], []
        ret = False

        def is_der(v):
            if v[0] == 'l':
                return v[1] in der
            if glob is not None:
                s = set()
                ops_of(v, s)
                return glob in s
            return False
        allocas = {i.res for i in f.insts() if i.op == 'alloca'}
        changed = True
        while changed:
            changed = False
            writes, unk = [], []
            for i in f.insts():
                d = False
                op = i.op
                if i.bb.name in skip:
                    continue
                if op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze', 'ptrtoint', 'inttoptr', 'extractvalue', 'insertvalue'):
                    d = any(is_der(o) for o in i.ops)
                elif op == 'phi':
                    d = any(is_der(v) for v in i.x.values())
                elif op == 'select':
                    d = is_der(i.ops[1]) or is_der(i.ops[2])
                elif op == 'load':
                    d = i.ty[0] == 'ptr' and (is_der(i.ops[0]) or i.ops[0][0] == 'l' and i.ops[0][1] in cells)
                elif op == 'store':
                    if is_der(i.ops[1]):
                        writes.append((i, 'store'))
                    if is_der(i.ops[0]):
                        if i.ops[1][0] == 'l' and i.ops[1][1] in allocas:
                            if i.ops[1][1] not in cells:
                                cells.add(i.ops[1][1])
                                changed = True
                        else:
                            unk.append((i, 'its address is stored in memory'))
                elif op in ('atomicrmw', 'cmpxchg'):
                    if is_der(i.ops[0]):
                        writes.append((i, 'atomic update'))
                elif op == 'ret':
                    if i.ops and is_der(i.ops[0]):
                        ret = True
                elif op in ('call', 'invoke'):
                    ks = [k for k, o in enumerate(i.ops) if is_der(o)]
                    if ks:
                        w, u, r = self.call(f, i, ks)
                        writes += [(i, x) for x in w]
                        unk += [(i, x) for x in u]
                        d = r
                if d and i.res is not None and i.res not in der:
                    der.add(i.res)
                    changed = True
        return writes, unk, ret

    def call(self, f, i, ks):
        name, g = self.callee(f, i)
        if name is None:
            return [], ['it is passed to an indirect call'], True
        if name.startswith('llvm.'):
            if re.match(r'llvm\.mem(cpy|move|set)', name):
                return (['memory copy'] if 0 in ks else []), [], False
            return [], [], name.startswith(('llvm.launder', 'llvm.strip', 'llvm.ptrmask'))
        base = self.prog.base(name)
        dm = self.prog.dem(name)
        if base.startswith(('std::', '__gnu_cxx::')):
            # the standard library does not write through const parameters
            last = [] if not dm.endswith(' const') else [0, 1]
            ks = [k for k in ks if not (k in last and k == max(0, len(i.ops) - nparams(dm, base) - 1)) and not const_param(dm, k, base, len(i.ops))]
            if not ks:
                return [], [], False
        if g is not None:
            key = (id(g), tuple(ks))
            if key in self.memo:
                return self.memo[key]
            self.memo[key] = ([], [], True)         # recursion: resolved by the first full pass
            w, u, r = self.run(g, None, ks)
            d = self.prog.dem(g.name)
            res = (['written in %s (%s)' % (d[:160], x) for _, x in w[:1]], ['%s in %s' % (x, d[:160]) for _, x in u[:1]], r)
            self.memo[key] = res
            return res
        if base in WRITE_EXT:
            return (['%s' % base] if any(k in WRITE_EXT[base] for k in ks) else []), [], base == 'realloc'
        if base in READ_EXT or name in READ_EXT:
            return [], [], False
        d = self.prog.dem(name)
        if d.endswith(' const') or all(const_param(d, k, base, len(i.ops)) for k in ks):
            return [], [], False
        if 0 in ks and MUTATOR.match(base):
            return ['modified by %s' % d[:120]], [], True
        if name.startswith('vsa_'):
            return [], [], False         # the analyser's own stand-ins keep no pointers
        return [], ['it is passed to %s' % d[:160]], True


# members of the standard library, not visible as code, that change the object they are called on
MUTATOR = re.compile(r'std::(__cxx11::)?(basic_)?(i|o|io|if|of|f|string|istring|ostring)stream(<.*>)?::(read|readsome|get|getline|ignore|unget|putback|sync|write|put|flush|'
                     r'seekg|seekp|open|close|str|operator<<|operator>>|_M_insert|_M_extract)'
                     r'|std::(__cxx11::)?basic_string(<.*>)?::(append|assign|push_back|pop_back|operator=|operator\+=|insert|erase|clear|resize|reserve|swap|_M_append|_M_assign|_M_replace|_M_replace_aux|_M_mutate)'
                     r'|std::basic_ios(<.*>)?::(clear|setstate|rdbuf)|std::basic_filebuf(<.*>)?::(open|close)|std::__detail::_List_node_base::_M_|std::_Rb_tree_(insert|rebalance)')


def nparams(d, base):
    return len(params_of(d, base) or ())


def params_of(d, base):
    m = re.search(re.escape(base.split('<')[0]) + r'.*\((.*)\)', d)
    if not m:
        return None
    ps, depth, cur = [], 0, ''
    for ch in m[1]:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            ps.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        ps.append(cur.strip())
    return ps


def const_param(d, k, base, nargs):
    """by its demangled signature, does the function only read through parameter k?"""
    ps = params_of(d, base)
    if ps is None:
        return False
    k -= nargs - len(ps)        # this and the return slot come first
    return 0 <= k < len(ps) and bool(re.search(r'\bconst\s*[&*]$', ps[k]))


def guarded_blocks(f, glob, guard):
    """blocks that run only while a function-local static is being initialised"""
    f.parse()
    acq = None
    for i in f.insts():
        if i.op in ('call', 'invoke') and i.x['callee'] == ('g', '__cxa_guard_acquire'):
            s = set()
            for o in i.ops:
                ops_of(o, s)
            if guard in s:
                acq = i
    if acq is None:
        return set()
    # the branch on its result
    res = {acq.res}
    start = None
    for i in f.insts():
        if i.op == 'icmp' and any(o[0] == 'l' and o[1] in res for o in i.ops):
            res.add(i.res)
            nz = i.x == 'ne'
        if i.op == 'br' and i.ops and i.ops[0][0] == 'l' and i.ops[0][1] in res:
            start = i.x[0] if nz else i.x[1]
    if start is None:
        return set()
    stop = set()
    for i in f.insts():
        if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g' and i.x['callee'][1] in ('__cxa_guard_release', '__cxa_guard_abort'):
            s = set()
            for o in i.ops:
                ops_of(o, s)
            if guard in s:
                stop.add(i.bb.name)
    out, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in out:
            continue
        out.add(b)
        if b not in stop:
            todo += f.blocks[b].succs
    return out


def scan(c, prog, lang, own):
    for src, err in prog.failed:
        c.und('no-mutable-global', src, 'does not compile here: ' + err[-300:])
    nglob = nconst = 0
    users = {}
    for m in prog.mods:
        for f in m.funcs.values():
            text = '\n'.join(f.body)
            for g in re.findall(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', text):
                g = g[1:-1] if g.startswith('"') else g
                users.setdefault(g, {})[id(f)] = f
    flow = Flow(prog)
    for m in prog.mods:
        for n, t in sorted(m.globals.items()):
            head = t.split('"')[0]
            if n.startswith('llvm.') or re.match(r'(\w+ )*external\b', head):
                continue
            if not own(prog, m, n, t):
                continue
            nglob += 1
            if re.search(r'\bconstant\b', re.sub(r'\{.*', '', head)):
                nconst += 1
                continue
            d = prog.dem(n)
            if d.startswith('guard variable for '):
                continue
            nm = '%s in %s' % (d, m.label)
            if SYNC.search(t[:300]):
                c.ok('no-mutable-global', nm, 'a lock')
                continue
            internal = bool(re.search(r'\b(internal|private)\b', head))
            guard = '_ZGV' + n[2:] if n.startswith('_Z') else '_ZGV' + n
            writes, unk = [], []
            fs = [f for f in users.get(n, {}).values() if not internal or f.mod is m]
            for f in fs:
                if initialiser(f):
                    continue
                skip = guarded_blocks(f, n, guard) if guard in m.globals else ()
                w, u, r = flow.run(f, n, skip=skip)
                writes += [(f, i, x) for i, x in w]
                unk += [(f, i, x) for i, x in u]
            if writes:
                f, i, x = writes[0]
                v = 'per-thread' if 'thread_local' in head else 'global'
                where = f.mod.loc(i.dbg) if i.dbg else f.loc()
                if v == 'per-thread':
                    c.und('no-mutable-global', nm, 'a thread-local variable written by %s' % prog.dem(f.name), where)
                else:
                    c.bad('no-mutable-global', nm, 'a variable shared by all callers is written by %s (%s)' % (prog.dem(f.name), x), where)
            elif unk:
                f, i, x = unk[0]
                c.und('no-mutable-global', nm, 'not shown to be read only: %s in %s' % (x, prog.dem(f.name)), f.mod.loc(i.dbg) if i.dbg else f.loc())
            else:
                c.ok('no-mutable-global', nm, 'written only by its initialiser; %d functions read it' % len(fs))
    fns = {prog.dem(f.name) for m in prog.mods for f in m.funcs.values() if own_fn(f)}
    c.functions |= fns
    c.ok('no-mutable-global', '%s: %d variables with static storage in %d modules, %d of them constants, used by %d functions of the library' %
         (lang, nglob, len(prog.mods), nconst, len(fns)))


def own_fn(f):
    l = f.loc()
    return bool(l and l[0] and l[0].startswith(PR.REPO))


def own_cxx(prog, m, n, t):
    d = prog.dem(n)
    if n.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZTT', '.str', 'switch.table')):
        return False
    return not re.search(r'(^|\s)(std|__gnu_cxx|__cxxabiv1|emscripten)::', d.replace('guard variable for ', '')) or '(' in d and not d.startswith('std::')


def own_rust(prog, m, n, t):
    return not re.match(r'(core|alloc|std|hashbrown)::', prog.dem(n)) and not n.startswith(('vtable', 'anon.', 'alloc_'))


@check('C19', 'proof', 'static storage inventory with interprocedural write analysis on LLVM IR',
       'Every variable with static storage duration in the compiled modules (C, C++, JavaScript bindings, the Rust scope) is a constant, a '
       'lock, or is never written outside its own initialiser (static initialisation, or the guarded initialisation of a function-local '
       'static); writes are looked for through every pointer derived from its address, across calls.')
def c19(c):
    p = PR.load(GROUPS, need=False, std=False)
    c.section('no-mutable-global', 'C and C++', scan, c, p, 'C/C++', own_cxx)
    c.section('no-mutable-global', 'Rust', lambda: scan(c, PR.load_rust(), 'Rust', own_rust))
