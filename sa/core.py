"""Obligation bookkeeping, evidence, verdicts."""
import json
import os
import sys
import time
import traceback
from . import terms as T
from .terms import S, Top, Undecided
from . import program as PR
from . import rand as R
from .interp import U, uninit, DEADLINE

VERIF = PR.VERIF
CHECKS = {}
BUDGET = {False: 600, True: 3000}      # seconds after which nothing further is analysed


def check(prop, level, technique, note):
    def d(f):
        CHECKS[prop] = dict(fn=f, level=level, technique=technique, note=note)
        return f
    return d


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obs = []           # dicts
        self.functions = set()
        self.extra = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------ recording
    def ob(self, rule, construct, verdict, detail='', loc=None, key=None):
        """verdict: ok | violated | undecided"""
        o = dict(rule=rule, construct=construct, verdict=verdict, detail=str(detail)[:3000], loc=fmtloc(loc))
        if verdict == 'violated':
            o['key'] = key or '%s|%s' % (rule, construct)
            for k in self.known:
                if k['key'] == o['key']:
                    o['verdict'] = 'known'
                    self.known_hit.append(o)
        self.obs.append(o)
        return verdict == 'ok'

    def ok(self, rule, construct, detail='', loc=None):
        return self.ob(rule, construct, 'ok', detail, loc)

    def bad(self, rule, construct, detail='', loc=None, key=None):
        return self.ob(rule, construct, 'violated', detail, loc, key)

    def und(self, rule, construct, detail='', loc=None):
        return self.ob(rule, construct, 'undecided', detail, loc)

    def use(self, eng):
        self.functions |= eng.functions_seen

    def equal(self, rule, construct, actual, expected, w=None, loc=None, assume=(), fixed=None, rounds=48, key=None):
        """obligation: two abstract values are the same value"""
        if actual is U and w:
            actual = uninit(None, 0, (w + 7) // 8)
            if w % 8:
                actual = T.extract(actual, w + 7 & ~7, 0, w)
        if isinstance(actual, int) and isinstance(expected, int):
            if actual == expected:
                return self.ok(rule, construct, '', loc)
            return self.bad(rule, construct, 'value is %s, the rule requires %s' % (_sh(actual, w), _sh(expected, w)), loc, key)
        if isinstance(actual, (int, S)) and isinstance(expected, (int, S)):
            if actual == expected:
                return self.ok(rule, construct, T.show(expected)[:200], loc)
            wit, tried = R.differ(actual, expected, rounds, fixed, assume, seed0=self.seed)
            if wit is not None:
                return self.bad(rule, construct, first_diff(actual, expected, w, wit), loc, key)
            x = R.exhaust(actual, expected, assume)
            if x is None and w and w > 8 and w % 8 == 0 and w <= 8192:
                for i in range(0, w, 8):
                    u, v = T.extract(actual, w, i, 8), T.extract(expected, w, i, 8)
                    if u != v:
                        x = R.exhaust(u, v, assume)
                        if x is not True:
                            break
            if x is True:
                return self.ok(rule, construct, T.show(expected)[:200], loc)
            if x is not None:
                return self.bad(rule, construct, first_diff(actual, expected, w, x), loc, key)
            return self.und(rule, construct, 'canonical forms differ but agree on %d random interpretations: %s' %
                            (tried, first_diff(actual, expected, w, None)), loc)
        return self.und(rule, construct, 'value not determined: %r' % (actual,), loc)

    def rope(self, rule, construct, segs, expected, st=None, loc=None):
        """obligation: content of symbolic length equals the expected segments"""
        from .interp import canon_segs
        segs = tuple(canon_segs(segs, st))
        if segs == tuple(expected):
            return self.ok(rule, construct, '', loc)
        if any(s[0] == 't' for s in segs):
            return self.und(rule, construct, 'content not determined: %r' % (segs,), loc)
        from . import spec as SP
        return self.equal(rule, construct, SP.hashv('frame', 32, *segs), SP.hashv('frame', 32, *expected), 256, loc)

    def true(self, rule, construct, cond, detail='', loc=None, key=None):
        if cond is None:
            return self.und(rule, construct, detail, loc)
        return self.ob(rule, construct, 'ok' if cond else 'violated', detail, loc, key)

    def mark(self):
        return len(self.obs)

    def undecided_since(self, m):
        return any(o['verdict'] == 'undecided' for o in self.obs[m:]) and not any(o['verdict'] == 'violated' for o in self.obs[m:])

    # ------------------------------------------------------------ guarded section
    def section(self, rule, construct, f, *a, loc=None):
        from .interp import LIVE
        left = DEADLINE[0] - time.monotonic()
        bad = sum(o['verdict'] == 'violated' for o in self.obs)
        if left < 0 or bad and left < BUDGET[self.thorough] * .6 or bad >= 200:
            return self.und(rule, construct, 'not analysed: ' + ('time budget' if not bad else 'enough violations found'), loc)
        mark, first = len(LIVE), len(self.obs)
        try:
            r = self._section(rule, construct, f, a, loc, mark)
            self.accesses(construct, LIVE[mark:], first, loc)
            return r
        finally:
            del LIVE[mark:]

    def accesses(self, construct, engines, first, loc):
        """every interpretation also carries the obligation that no access leaves its object"""
        if not engines:
            return
        told = [o['detail'] for o in self.obs[first:] if o['verdict'] != 'ok']
        bad = False
        for e in engines:
            for x in e.oob:
                if not any(x[2] in d for d in told):
                    told.append(x[2])
                    self.bad('bounds', construct, '%s %s %s' % x, loc)
                bad = True
            for x in e.maybe_oob:
                if not bad and not any(x[2] in d for d in told):
                    told.append(x[2])
                    self.und('bounds', construct, 'if its path can be taken: %s %s %s' % x, loc)
                bad = True
        if not bad:
            self.ok('bounds', construct + ': every access stays inside its object')

    def gave_up(self, rule, construct, why, loc, mark):
        """the analysis stopped: because the code leaves its buffers, or because it is not precise enough"""
        from .interp import LIVE
        for e in LIVE[mark:]:
            for x in e.oob[:1]:
                return self.bad(rule, construct, 'invalid memory access: %s %s %s (%s)' % (x + (why,)), loc)
        self.und(rule, construct, 'analysis gave up: ' + why, loc)

    def _section(self, rule, construct, f, a, loc, mark):
        try:
            return f(*a)
        except T.Broken as e:
            self.bad(e.rule, construct, str(e), loc)
        except Undecided as e:
            self.gave_up(rule, construct, str(e), loc, mark)
        except PR.BuildError as e:
            self.und(rule, construct, 'does not compile here: %s' % str(e)[-600:], loc)
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, OverflowError,
                ZeroDivisionError, SyntaxError, NotImplementedError) as e:
            if os.environ.get('VSA_DEBUG'):
                traceback.print_exc(limit=-5)
            self.gave_up(rule, construct, '%s: %s @%s' % (type(e).__name__, e, tb_last(e)), loc, mark)
        return None

    # ------------------------------------------------------------ finishing
    def finish(self, info):
        viol = [o for o in self.obs if o['verdict'] == 'violated']
        okc = [o for o in self.obs if o['verdict'] == 'ok']
        und = [o for o in self.obs if o['verdict'] == 'undecided']
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o['rule'], {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0, 'known': 0})
            r['obligations'] += 1
            r[{'ok': 'discharged'}.get(o['verdict'], o['verdict'])] += 1
        cov = dict(obligations=len(self.obs), discharged=len(okc), undecided=len(und), known_findings=len(self.known_hit),
                   rules=rules,
                   functions_analysed=fnames(self.functions)[:400],
                   functions_count=len(self.functions),
                   explanation=info['note'],
                   checker_cmd='python3 sa/main.py check %s %s' % (self.prop, self.tier),
                   trusted_base=TRUSTED,
                   samples=sample(self.obs),
                   undecided_list=[{k: o[k] for k in ('rule', 'construct', 'detail', 'loc')} for o in und][:60])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=info['level'], coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        evd = os.environ.get('VSA_EVIDENCE', VERIF + '/evidence')
        os.makedirs(evd, exist_ok=True)
        p = evd + '/%s.json' % self.prop
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        for o in self.known_hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, o['construct'], o['detail'][:200].replace('\n', ' ')))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d functions, %.1fs' %
              (self.prop, len(self.obs), len(okc), len(und), len(viol), len(self.functions), time.time() - self.t0))
        if viol:
            rp = evd + '/%s.violation.json' % self.prop
            with open(rp, 'w') as f:
                json.dump(viol, f, indent=1, default=str)
            for o in viol[:10]:
                print('  rule %s broken by %s at %s: %s' % (o['rule'], o['construct'], o['loc'], o['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if not okc:
            print('error: no obligation of %s could be decided' % self.prop)
            for o in und[:5]:
                print('  ', o['rule'], o['construct'], o['detail'][:400])
            return 2
        return 0


TRUSTED = ['clang 18 / rustc 1.99 front ends lower the source to LLVM IR correctly',
           'the analyser in /verif/sa (transfer functions, canonical term forms)',
           'standard containers behave as the C++/Rust standard says (modelled, not analysed)']


def fnames(fs):
    """readable 'source: function' names"""
    import subprocess
    fs = [f if isinstance(f, tuple) else ('', str(f)) for f in fs]
    try:
        d = subprocess.run([PR.LLVM + 'llvm-cxxfilt'], input='\n'.join(f[-1] for f in fs), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    except OSError:
        d = [f[-1] for f in fs]
    out = set()
    for f, n in zip(fs, d):
        u = os.path.basename(str(f[0]))
        u = u.split('.e3b0c4')[0].replace('.._', '')
        out.add((u + ': ' if u else '') + n)
    return sorted(out)


def tb_last(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'


def sample(obs):
    out = []
    seen = {}
    for o in obs:
        if seen.get(o['rule'], 0) < 2:
            seen[o['rule']] = seen.get(o['rule'], 0) + 1
            out.append({k: o[k] for k in ('rule', 'construct', 'verdict', 'detail', 'loc')})
    return out[:40]


def fmtloc(l):
    if l is None:
        return None
    if isinstance(l, tuple):
        return '%s:%s' % l[:2]
    return str(l)


def _sh(v, w):
    if isinstance(v, int) and w and w >= 16 and w % 8 == 0:
        return T.show_bytes(v, w // 8)
    return T.show(v)


def first_diff(a, b, w, wit):
    """describe the first differing bytes"""
    if w is None or w <= 64:
        s = 'value is %s, the rule requires %s' % (T.show(a), T.show(b))
        if wit is not None:
            s += '; e.g. 0x%x instead of 0x%x' % (wit.val(a), wit.val(b))
        return s[:1500]
    # locate first differing byte
    if wit is not None:
        x, y = wit.val(a), wit.val(b)
        d = x ^ y
        pos = ((d & -d).bit_length() - 1) // 8
    else:
        pos = 0
        for i in range(0, w, 8):
            if T.extract(a, w, i, 8) != T.extract(b, w, i, 8):
                pos = i // 8
                break
    n = min(8, w // 8 - pos)
    return 'bytes from offset %d differ: value is %s, the rule requires %s' % (
        pos, T.show(T.extract(a, w, 8 * pos, 8 * n)), T.show(T.extract(b, w, 8 * pos, 8 * n)))


def load_known(prop):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [k for k in d.get('findings', []) if k['property'] == prop]


def main(argv):
    from . import checks      # noqa: registers
    if len(argv) >= 2 and argv[0] == 'check':
        prop = argv[1]
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        info = CHECKS[prop]
        DEADLINE[0] = time.monotonic() + BUDGET[tier == 'thorough']
        c = Check(prop, tier, seed)
        try:
            c.section('analysis', prop, info['fn'], c)
        except PR.BuildError as e:
            print('error: /repo does not compile: %s' % e)
            return 2
        return c.finish(info)
    if argv and argv[0] == 'list':
        for k in sorted(CHECKS):
            print(k, CHECKS[k]['level'], CHECKS[k]['technique'])
        return 0
    print('usage: main.py check <ID> [quick|thorough]')
    return 2
