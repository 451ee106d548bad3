"""C17: issuing of indexes by the tree pool under every interleaving; C18: derivation of its trees."""
from .. import terms as T, program as PR, spec as SP
from ..core import check
from ..cxx import m_new, CXX
from ..interp import Engine, State, Ptr, DEAD, i2p, CMem
from ..klass import excname
from ..models import PRIMS
from ..terms import Undecided, Broken, S
from .hashes import loc
from .verify import inb


def program():
    return PR.load(['pool'], need=False)


class Tree:
    def __init__(self, seed, rest, ctx, locked, where):
        self.seed, self.rest, self.ctx, self.locked, self.where = seed, rest, ctx, locked, where


class Pool:
    """one abstract pool; records locks, accesses, tasks and trees built"""

    def __init__(self, eager, start, size, height=10, n=48, inject=None, slow=0, busy=0):
        self.prog = program()
        self.eager = eager
        self.ctx = ['ctor']
        self.locks = {}         # (object, offset) -> context holding it
        self.log = []           # (op, ctx, kind, object, off, n, locked, where, seq, atomic)
        self.trees = {}         # object -> Tree
        self.bad = []           # (rule, text, where)
        self.tasks = {}         # object -> 'new' | 'running' | 'done'
        self.freed = {}
        self.seq = 0
        self.op = 'ctor'
        self.tried = False
        self.points = 0
        self.inject = inject    # run another call at this boundary
        self.results = []
        self.first_task = None
        self.polled = None      # the background tasks that are finished, as far as polling can see
        self.busy = busy        # attempts to take a lock without waiting fail this many times (another caller holds it)
        self.slow = slow        # polls find a task unfinished this many operations long
        self.asked, self.clock, self.born = {}, 0, {}
        m = dict(PRIMS)
        m.update({
            'vsa_task_new': self.m_task_new, 'vsa_task_eager': lambda e, fr, i, a, st: int(self.eager), 'vsa_task_begin': self.m_begin, 'vsa_task_end': self.m_end,
            'vsa_task_wait': self.m_wait, 'vsa_task_poll': self.m_poll, 'vsa_future_nostate': self.m_nostate,
            'pthread_mutex_lock': self.m_lock, 'pthread_mutex_unlock': self.m_unlock, 'pthread_mutex_trylock': self.m_try, 'pthread_rwlock_trywrlock': self.m_try, 'pthread_rwlock_tryrdlock': self.m_try,
            'pthread_mutex_timedlock': self.m_try, 'pthread_mutex_clocklock': self.m_try,
            'pthread_rwlock_wrlock': self.m_lock, 'pthread_rwlock_rdlock': self.m_lock, 'pthread_rwlock_unlock': self.m_unlock,
            'XmssFast::XmssFast': self.m_fast, 'XmssFast::~XmssFast': _nop, 'XmssBase::~XmssBase': _nop,
            '__gnu_cxx::__is_single_threaded': lambda e, fr, i, a, st: 1, '__gthread_active_p': lambda e, fr, i, a, st: 1,
            'operator delete': self.m_delete, 'operator delete[]': self.m_delete,
        })
        self.eng = e = Engine(self.prog, m, unroll=3000, max_steps=8_000_000)
        self.st = State()
        self.n = n
        self.seed = Ptr(e.input_obj(self.st, 'BASE', n))
        self.rd, self.wr, self.co, self.ci = e.load, e.store, e.copy_out, e.copy_in
        e.load, e.store, e.copy_out, e.copy_in = self.load, self.store, self.copy_out, self.copy_in
        self.shared = set()
        self.obj = None
        self.start, self.size, self.height = start, size, height
        r = self.call('vsa_pool_new', self.seed, n, height, start, size)
        if not isinstance(r, Ptr):
            raise Undecided('pool object not determined')
        self.obj = r
        self.refresh(self.st)

    # ---------------------------------------------------------- running
    def fn(self, name):
        f = self.prog.find(name)
        if f is None:
            raise Undecided('driver %s not available: %s' % (name, '; '.join(x[1][-300:] for x in self.prog.failed) or 'not found'))
        return f

    def call(self, name, *args):
        e = self.eng
        n0 = len(e.exc)
        r = e.call(self.fn(name), list(args), self.st)
        if r is None and len(e.exc) > n0 and name == 'vsa_pool_next':
            raise Broken('next-tree', 'obtaining the next tree raises %s' % [excname(x) for x in e.exc[n0:]])
        if r is None or len(e.exc) > n0:
            raise Undecided('%s raises %s' % (name, [excname(x) for x in e.exc[n0:]]))
        self.st = r[1]
        return r[0]

    def method(self, op, name):
        """one public operation by a caller"""
        self.op, self.ctx = op, ['caller']
        self.clock += 1
        self.refresh(self.st)
        r = self.call(name, self.obj)
        self.op = None
        return r

    def next(self, op):
        r = self.method(op, 'vsa_pool_next')
        return self.result(r)

    def result(self, r):
        r = i2p(r)
        t = self.trees.get(r.obj) if isinstance(r, Ptr) else None
        if t is None and not isinstance(r, int):
            raise Undecided('tree returned is not determined')
        return t

    # ---------------------------------------------------------- shared memory
    def refresh(self, st):
        """objects that belong to the pool's shared state now"""
        out = set()
        todo = [self.obj.obj] if self.obj is not None else []
        while todo:
            o = todo.pop()
            if o in out or o in self.tasks or o in self.trees or o.kind not in ('heap',):
                continue
            out.add(o)
            m = st.mem.get(o)
            if isinstance(m, CMem):
                for ln, v in m.segs(0, m.n):
                    v = i2p(v) if isinstance(v, S) else v
                    if isinstance(v, Ptr):
                        todo.append(v.obj)
        self.shared = out
        if self.op == 'ctor':
            self.built = out

    def note(self, kind, p, n, st):
        if self.obj is None and self.op != 'ctor':
            return
        p = i2p(p)
        if not isinstance(p, Ptr):
            return
        o = p.obj
        ctx = self.ctx[-1]
        if ctx == 'task':
            if o in self.freed:
                self.bad.append(('outlives', 'background work %ss memory already freed at %s' % (kind, self.freed[o]), self.eng.where()))
            if o.kind == 'stack' and isinstance(o.info, tuple) and not self.alive(o.info[0]):
                self.bad.append(('outlives', 'background work %ss a local variable of %s, which has returned' % (kind, self.prog.dem(o.info[0])), self.eng.where()))
        if o.kind != 'heap' or o in self.tasks or o in self.trees or (self.op != 'ctor' and o not in self.shared):
            return
        off = p.off if isinstance(p.off, int) else None
        ln = n if isinstance(n, int) else None
        fr = self.eng.frame
        atomic = bool(fr is not None and fr.cur is not None and (fr.cur.op in ('atomicrmw', 'cmpxchg') or fr.cur.op in ('load', 'store') and fr.cur.x is True))
        self.seq += 1
        self.log.append((self.op, ctx, kind, o, off, ln, frozenset(self.held(ctx)), self.eng.where() if len(self.log) < 40000 else '', self.seq, atomic))

    def alive(self, name):
        f = self.eng.frame
        while f is not None:
            if f.fn.name == name:
                return True
            f = f.parent
        return False

    def held(self, ctx):
        return [k for k, v in self.locks.items() if v == ctx]

    def load(self, st, p, n, ty=None):
        self.note('read', p, n, st)
        return self.rd(st, p, n, ty)

    def store(self, st, p, n, v):
        self.note('write', p, n, st)
        return self.wr(st, p, n, v)

    def copy_out(self, st, p, ln):
        self.note('read', p, ln, st)
        return self.co(st, p, ln)

    def copy_in(self, st, p, segs):
        self.note('write', p, sum(s[1] for s in segs) if all(isinstance(s[1], int) for s in segs) else None, st)
        return self.ci(st, p, segs)

    # ---------------------------------------------------------- models
    def m_delete(self, eng, fr, ins, a, st):
        p = i2p(a[0])
        if isinstance(p, Ptr):
            self.freed[p.obj] = eng.where()
        return None

    def mkey(self, a):
        p = i2p(a[0])
        return (p.obj, p.off)

    def m_lock(self, eng, fr, ins, a, st):
        k, c = self.mkey(a), self.ctx[-1]
        if self.locks.get(k) == c and self.op != 'ctor':
            raise Broken('lock', 'the lock is taken again by its holder at %s' % eng.where())
        if c == 'caller' and self.op != 'ctor':
            r = self.boundary(eng, st)
            if r is not None:
                st = r
        self.locks[k] = c
        self.publish(c, st)
        return 0, st

    def m_try(self, eng, fr, ins, a, st):
        self.tried = True
        if self.op != 'ctor' and self.busy > 0:
            self.busy -= 1
            return 16           # EBUSY
        return self.m_lock(eng, fr, ins, a, st)

    def m_unlock(self, eng, fr, ins, a, st):
        k, c = self.mkey(a), self.ctx[-1]
        if self.locks.get(k) == c:
            del self.locks[k]
        self.publish(c, st)
        if c == 'caller' and self.op != 'ctor' and not self.held(c):
            r = self.boundary(eng, st)
            if r is not None:
                return 0, r
        return 0

    def publish(self, c, st):
        if self.op != 'ctor' and self.obj is not None:
            self.refresh(st)

    def boundary(self, eng, st):
        """between critical sections another caller may run a whole operation"""
        self.points += 1
        if self.inject is None or self.points != self.inject:
            return None
        save = self.op, self.ctx
        self.op, self.ctx = 'other', ['caller']
        inj, self.inject = self.inject, None
        self.refresh(st)
        r = eng.call(self.fn('vsa_pool_next'), [self.obj], st)
        if r is None:
            raise Undecided('the other call does not return')
        self.results.append(self.result(r[0]))
        self.op, self.ctx = save
        self.refresh(r[1])
        return r[1]

    def m_task_new(self, eng, fr, ins, a, st):
        p = i2p(a[0])
        self.tasks[p.obj] = 'new'
        self.born[p.obj] = self.clock
        if len(self.tasks) > 4 * self.size + 200:
            raise Broken('bounded-cache', 'more than %d background key generations are started for a pool of %d at %s' % (4 * self.size + 200, self.size, eng.where()))
        if not a[1]:
            self.bad.append(('background', 'a tree is put in the cache whose key is not generated in the background but by the call that asks for it', eng.where()))
        self.shared.discard(p.obj)
        if self.first_task is None:
            self.first_task = self.seq
        return None

    def m_begin(self, eng, fr, ins, a, st):
        p = i2p(a[0])
        is_async = self.rd(st, Ptr(p.obj, p.off + 8), 1)
        self.tasks[p.obj] = 'running'
        self.ctx.append('task' if is_async else self.ctx[-1])
        return None

    def m_end(self, eng, fr, ins, a, st):
        self.tasks[i2p(a[0]).obj] = 'done'
        self.ctx.pop()
        return None

    def m_wait(self, eng, fr, ins, a, st):
        if self.op != 'ctor' and self.held(self.ctx[-1]):
            self.bad.append(('no-wait-under-lock', '%s waits for background key generation while holding the lock' % self.op, eng.where()))
        return None

    def m_poll(self, eng, fr, ins, a, st):
        if a[1] != 0 and self.held(self.ctx[-1]):
            self.bad.append(('no-wait-under-lock', '%s waits for background key generation while holding the lock' % self.op, eng.where()))
        o = i2p(a[0]).obj
        if self.polled is not None:
            return int(o in self.polled)
        if self.tasks.get(o) == 'done':
            return 1
        if self.eager:
            return 0
        n = self.asked[o] = self.asked.get(o, 0) + 1
        return int(self.clock >= self.born[o] + self.slow or n > (2 if a[1] else 40))

    def m_nostate(self, eng, fr, ins, a, st):
        raise Broken('future-state', 'a future without shared state is used (never filled, or consumed twice) at %s' % eng.where())

    def m_fast(self, eng, fr, ins, a, st):
        p = i2p(a[0])
        v = i2p(a[1])
        b, e = i2p(self.rd(st, v, 8)), i2p(self.rd(st, Ptr(v.obj, v.off + 8), 8))
        ln = e.off - b.off
        seed = (ln, eng.bytes_of(st, b, ln) if ln else 0)
        ctx = self.ctx[-1]
        locked = bool(self.held(ctx)) and self.op != 'ctor'
        self.trees[p.obj] = Tree(seed, tuple(st.simp(x) for x in a[2:]), (self.op, ctx), locked, eng.where())
        if locked:
            self.bad.append(('no-keygen-under-lock', 'a key is generated by %s while the lock is held' % (self.op if ctx != 'task' else 'a background task'), eng.where()))
        return None


def _nop(*a):
    return None


def seed_of(n, i):
    """the stake seed of index i (an integer or a term) over an n-byte base seed"""
    v = i + 1
    k = max(1, (v.bit_length() + 7) // 8)
    return (48, SP.hashv('shake256', 48, *([SP.B(inb('BASE', n), n)] if n else []), SP.B(int.from_bytes(v.to_bytes(k, 'little'), 'little'), k)))


def which(tree, n, lo, hi):
    for i in range(max(0, lo), hi):
        if tree.seed == seed_of(n, i):
            return i
    return None


def flush_bad(c, p, nm, ok):
    seen = set()
    for rule, text, where in p.bad:
        k = (rule, text, where.split(' <- ')[0])
        if k not in seen:
            seen.add(k)
            c.bad(rule, '%s: %s' % (nm, where.split(' <- ')[0]), text + ' at ' + where[:800])
    for r in ok:
        if not any(b[0] == r for b in p.bad):
            c.ok(r, nm)


def lockset(c, p, nm):
    """accesses to the pool's memory by its operations and by background work"""
    wr = {}                 # object -> list of written ranges after construction
    mutex = set()
    log = [x for x in p.log if x[0] != 'ctor' or x[3] in p.built]
    for op, ctx, kind, o, off, n, locked, where, seq, atomic in log:
        if kind == 'write' and op not in ('ctor', 'dtor'):
            wr.setdefault(o, []).append((off, n, locked, where))

    def hit(o, off, n):
        for a, b, lk, w in wr.get(o, ()):
            if a is None or off is None or b is None or n is None or (a < off + n and off < a + b):
                return w
        return None
    seen = set()
    nacc = 0
    for op, ctx, kind, o, off, n, locked, where, seq, atomic in log:
        if op in ('ctor', 'dtor') and ctx != 'task':
            continue
        nacc += 1
        if locked or atomic:
            continue
        if kind == 'write' and ctx != 'task':
            k = (where.split(' <- ')[0], kind)
            if k not in seen:
                seen.add(k)
                c.bad('lockset', '%s: %s' % (nm, k[0]), '%s writes shared pool state without holding the lock at %s' % (op, where[:600]))
            continue
        w = hit(o, off, n)
        if kind == 'write' or w is not None:
            k = (where.split(' <- ')[0], kind)
            if k not in seen:
                seen.add(k)
                who = 'background work' if ctx == 'task' else op
                c.bad('lockset', '%s: %s' % (nm, k[0]), '%s %ss shared pool state without holding the lock at %s%s' %
                      (who, kind, where[:500], '; written at %s' % w[:300] if w else ''))
    # the same lock everywhere
    acc = {}
    for op, ctx, kind, o, off, n, locked, where, seq, atomic in log:
        if op not in ('ctor', 'dtor') and locked and not atomic:
            acc.setdefault((o, off, n, kind, locked), (op, where))
    by = {}
    for (o, off, n, kind, lk), (op, where) in acc.items():
        by.setdefault(o, []).append((off, n, kind, lk, op, where))
    for o, l in by.items():
        for off, n, kind, lk, op, where in l:
            if kind == 'write':
                for off2, n2, kind2, lk2, op2, where2 in l:
                    if not lk & lk2 and (off is None or off2 is None or off < off2 + n2 and off2 < off + n):
                        k = (where.split(' <- ')[0], where2.split(' <- ')[0])
                        if k not in seen and k[::-1] not in seen:
                            seen.add(k)
                            c.bad('lockset', '%s: %s' % (nm, k[0]), '%s and %s touch the same shared pool state under different locks: %s; %s' % (op, op2, where[:300], where2[:300]))
    if not seen:
        c.ok('lockset', nm, '%d accesses to shared pool memory' % nacc)
    # construction: nothing background work reads is written after the first task started
    if p.first_task is not None:
        rd = {}
        for op, ctx, kind, o, off, n, locked, where, seq, atomic in log:
            if ctx == 'task' and not locked:
                rd.setdefault(o, []).append((off, n))
        for op, ctx, kind, o, off, n, locked, where, seq, atomic in log:
            if op == 'ctor' and ctx == 'ctor' and kind == 'write' and seq > p.first_task and not locked:
                if any(a is None or off is None or (a < off + n and off < a + b) for a, b in rd.get(o, ())):
                    c.bad('constructed-before-start', '%s: %s' % (nm, where.split(' <- ')[0]), 'the constructor writes state a task already started uses, at %s' % where[:600])
                    break
        else:
            c.ok('constructed-before-start', nm)


def timing(eager, slow):
    return 'at once' if eager else 'when waited for' + (', polls find them unfinished for %d operations' % slow if slow else '')


def sequence(c, eager, start, size, calls, slow=0, busy=0):
    nm = 'pool of %d from index %d, tasks run %s' % (size, start, timing(eager, slow)) + (', lock busy for %d attempts' % busy if busy else '')
    p = Pool(eager, start, size, slow=slow, busy=busy)
    l = loc(p.prog.find('XmssPool::getNextTree')) if p.prog.find('XmssPool::getNextTree') else None
    c.use(p.eng)
    got = []
    for k in range(calls):
        v = p.method('isAvailable', 'vsa_pool_available')
        if not isinstance(v, int):
            raise Undecided('availability not determined')
        i = p.method('getCurrentIndex', 'vsa_pool_index')
        c.equal('consecutive', '%s: index before call %d' % (nm, k), i, start + k, 64, l)
        t = p.next('getNextTree')
        if t is None:
            c.bad('issues-a-tree', '%s: call %d' % (nm, k), 'no tree is returned', l)
            continue
        got.append(t)
        w = which(t, p.n, start - 2, start + calls + size + 3)
        if w is None:
            c.und('consecutive', '%s: call %d' % (nm, k), 'the tree has no recognised index', l)
        else:
            c.true('consecutive', '%s: call %d' % (nm, k), w == start + k, 'index %d is issued instead of %d' % (w, start + k), l)
    for i in range(len(got)):
        for j in range(i):
            c.true('distinct', '%s: calls %d and %d' % (nm, j, i), got[i].seed != got[j].seed and got[i] is not got[j], 'both calls get the tree of the same index', l)
    if p.tried and not busy:
        for k in (1, 2, 1000):
            c.section('consecutive', nm, sequence, c, eager, start, size, calls, slow, k)
    p.op, p.ctx = 'dtor', ['caller']
    p.call('vsa_pool_delete', p.obj)
    lockset(c, p, nm)
    flush_bad(c, p, nm, ('no-wait-under-lock', 'no-keygen-under-lock', 'outlives', 'future-state', 'lock', 'background'))


def available(c, start, size, calls):
    """isAvailable: whether the next call gets a tree that is already there"""
    nm0 = 'pool of %d from index %d' % (size, start)
    p = Pool(False, start, size)
    f = p.prog.find('XmssPool::isAvailable')
    l = loc(f) if f else None
    c.use(p.eng)

    def ask(ready):
        p.polled = ready
        v = p.method('isAvailable', 'vsa_pool_available')
        p.polled = None
        if not isinstance(v, int):
            raise Undecided('availability not determined')
        return bool(v & 1)
    for k in range(calls):
        nm = '%s, after %d trees' % (nm0, k)
        open_ = [t for t, s in p.tasks.items() if s == 'new']
        one = [(t, ask({t})) for t in open_]
        rest = [(t, ask(set(open_) - {t})) for t in open_]
        none, every = ask(set()), ask(set(open_))
        p.next('getNextTree')
        used = [t for t in open_ if p.tasks[t] == 'done']
        if len(used) > 1:
            raise Undecided('several background tasks used by one call')
        c.true('available', nm + ', nothing computed yet', not none, 'reports a tree as available', l)
        c.true('available', nm + ', everything computed', every == bool(used), 'reports %s' % every, l)
        for t, v in one:
            c.true('available', nm + ', only background task %d computed' % open_.index(t), v == (t in used), 'reports %s' % v, l)
        for t, v in rest:
            if len(open_) > 1:
                c.true('available', nm + ', all but background task %d computed' % open_.index(t), v == (bool(used) and t not in used), 'reports %s' % v, l)


def interleave(c, eager, start, size, warm, slow=0):
    """another call inserted at each lock boundary of a call"""
    k = 1
    while k <= 12:
        nm = 'pool of %d from index %d, other call at boundary %d of call %d, tasks run %s' % (size, start, k, warm, timing(eager, slow))
        p = Pool(eager, start, size, slow=slow)
        l = loc(p.prog.find('XmssPool::getNextTree')) if p.prog.find('XmssPool::getNextTree') else None
        c.use(p.eng)
        got = [p.next('getNextTree') for _ in range(warm)]
        p.points = 0
        p.inject = k
        t = p.next('getNextTree')
        if p.inject is not None:
            break               # no such boundary
        got += p.results + [t, p.next('getNextTree')]
        if any(x is None for x in got):
            c.bad('issues-a-tree', nm, 'no tree is returned', l)
        else:
            c.true('distinct', nm, len({x.seed for x in got}) == len(got) and len({id(x) for x in got}) == len(got),
                   'two calls get the tree of the same index', l)
            ix = [which(x, p.n, start - 2, start + size + warm + 8) for x in got]
            if None in ix:
                c.und('consecutive', nm, 'a tree has no recognised index', l)
            else:
                c.true('consecutive', nm, sorted(ix) == list(range(start, start + len(ix))), 'indexes issued are %s' % ix, l)
        i = p.method('getCurrentIndex', 'vsa_pool_index')
        c.equal('consecutive', nm + ': current index', i, start + len(got), 64, l)
        flush_bad(c, p, nm, ('no-wait-under-lock', 'no-keygen-under-lock', 'outlives', 'future-state', 'lock', 'background'))
        k += 1
    c.ok('boundaries', 'pool of %d from %d' % (size, start), '%d insertion points' % (k - 1))


MODES = ((True, 0), (False, 0), (False, 1), (False, 2), (False, 4), (False, 7), (False, 1000))


@check('C17', 'proof', 'lockset, lifetime and effect analysis on LLVM IR by abstract interpretation; calls inserted at every lock boundary',
       'The pool class is interpreted with threads, futures, locks and key generation abstract.  Every access to memory reachable from the '
       'pool is logged with the locks held; background work may only read memory no operation writes and that is alive whenever the work '
       'may run (at once, or as late as the wait); no key generation or wait happens with the lock held.  Since operations then interfere '
       'only at lock boundaries, a complete other call is inserted at each of them and the indexes issued must stay distinct and consecutive.')
def c17(c):
    for start in (0, 3, 254, 255, 256, 65534, 1 << 32) if not c.thorough else (0, 1, 3, 254, 255, 256, 65534, 65535, (1 << 31) - 1, (1 << 32) - 2, 1 << 32, (1 << 48) + 7):
        for size in (0, 1, 2, 3, 5) if start in (0, 3, 254) or c.thorough else (0, 2):
            for eager, slow in MODES:
                c.section('consecutive', 'pool of %d from %d' % (size, start), sequence, c, eager, start, size, 8 if c.thorough else 5, slow) if eager or start in (0, 3, 254) or not slow else None
    for start in (0, 254):
        for size in (0, 1, 2, 3, 4):
            c.section('available', 'pool of %d from %d' % (size, start), available, c, start, size, 4)
    for start, warm in ((0, 0), (7, 1), (254, 2)):
        for size in (0, 1, 2, 4):
            for eager, slow in MODES:
                c.section('distinct', 'pool of %d from %d' % (size, start), interleave, c, eager, start, size, warm, slow)
    c.assumptions += ['std::mutex gives mutual exclusion; std::async runs its callable once on another thread and the future of such a task waits in its destructor']


# ------------------------------------------------------------------ C18
def derive(c, p, t, nm, i, idx, l, height, rest):
    c.equal('seed-length', nm, t.seed[0], 48, 64, l)
    if t.seed[0] == 48:
        c.equal('seed', nm, t.seed[1], seed_of(p.n, idx)[1] if isinstance(idx, int) else idx, 384, l)
    if not t.rest:
        return c.und('height', nm, 'height argument not found', l)
    c.equal('height', nm, T.extract(t.rest[0], 8, 0, 8) if not isinstance(t.rest[0], int) else t.rest[0] & 255, height, 8, l)
    if rest is not None:
        c.true('same-parameters', nm, tuple(t.rest[1:]) == rest, 'other key parameters are %r, elsewhere %r' % (t.rest[1:], rest), l)


def pool_values(c, start, size, n, height, calls, eager, ref):
    nm0 = 'pool of %d, %d-byte base seed, height %d' % (size, n, height)
    p = Pool(eager, start, size, height, n)
    l = loc(p.prog.find('XmssPool::prepareTree') or p.prog.find('XmssPool::getNextTree'))
    c.use(p.eng)
    for k in range(calls):
        if k % 2:
            p.method('isAvailable', 'vsa_pool_available')
        t = p.next('getNextTree')
        if t is None:
            c.und('seed', '%s: index %d' % (nm0, start + k), 'no tree', l)
            continue
        derive(c, p, t, '%s: index %d' % (nm0, start + k), start + k, start + k, l, height, ref)


def symbolic(c, nbytes, top, ref):
    """all indexes i whose i + 1 has nbytes bytes and highest bit `top` of the last byte"""
    nm = 'every index with %d index bytes, leading bit %d' % (nbytes, top)
    bits = 8 * (nbytes - 1) + top
    v = T.concat(([(T.var('LOW', bits), bits)] if bits else []) + [(1, 1)] + ([(0, 63 - bits)] if bits < 63 else []))
    start = T.sub(v, 1, 64)
    H = T.var('H', 8)
    p = Pool(True, start, 0, H)
    l = loc(p.prog.find('XmssPool::prepareTree') or p.prog.find('XmssPool::getNextTree'))
    c.use(p.eng)
    t = p.next('getNextTree')
    if t is None:
        return c.und('seed', nm, 'no tree', l)
    want = SP.hashv('shake256', 48, SP.B(inb('BASE', p.n), p.n), SP.B(T.extract(v, 64, 0, 8 * nbytes), nbytes))
    derive(c, p, t, nm, None, want, l, H, ref)


@check('C18', 'proof', 'abstract interpretation of LLVM IR of the pool with abstract base seed, index and height',
       'For a pool without cache the starting index and height are abstract: for each of the 64 positions of the leading bit of index + 1 the '
       'seed given to key generation must be the 48-byte SHAKE256 of base seed || little-endian minimal index + 1.  Through the cache '
       '(several pool sizes, both task timings, with and without other calls between) it must be the same value for concrete indexes.')
def c18(c):
    ref = None
    p = Pool(True, 0, 0)
    t = p.next('getNextTree')
    ref = tuple(t.rest[1:]) if t is not None else None
    if ref is not None and not all(isinstance(x, int) for x in ref):
        ref = None
    for top in range(64):
        c.section('seed', 'indexes with leading bit %d' % top, symbolic, c, top // 8 + 1, top % 8, ref)
    for start in (0, 1, 252, 254, 255, 256, 65533, 65535, 16777214, (1 << 32) - 3, (1 << 40) - 2) + (((1 << 48) - 2, (1 << 56) - 2, 511, 767, 70000) if c.thorough else ()):
        for size in ((1, 3, 5, 9) if start in (0, 254) else (1, 3)) if not c.thorough else (1, 2, 3, 5, 8):
            for eager in (True, False):
                c.section('seed', 'pool of %d from %d' % (size, start), pool_values, c, start, size, 48, 10, 4, eager, ref)
    for n, h in ((0, 4), (1, 4), (32, 6), (48, 4), (48, 18), (51, 30), (100, 8)):
        c.section('seed', 'base seed of %d bytes' % n, pool_values, c, 254, 2, n, h, 3, True, ref)
