"""C24: signing keys cannot be duplicated by copying."""
import json
import os
import re
import subprocess
import tempfile
from .. import terms as T, program as PR, klass as K
from ..core import check
from ..klass import Api, genkey_models
from .verify import inb

CLASSES = [('XmssFast', 'qrl/xmssFast.h'), ('XmssBasic', 'qrl/xmssBasic.h'), ('XmssBase', 'qrl/xmssBase.h'), ('XmssPool', 'qrl/xmssPool.h')]

FORMS = [
    ('construct from %s &', 'std::is_constructible<%s, %s &>::value'),
    ('construct from const %s &', 'std::is_constructible<%s, const %s &>::value'),
    ('construct from const %s', 'std::is_constructible<%s, const %s>::value'),
    ('convert from const %s &', 'std::is_convertible<const %s &, %s>::value'),
    ('assign from %s &', 'std::is_assignable<%s &, %s &>::value'),
    ('assign from const %s &', 'std::is_assignable<%s &, const %s &>::value'),
    ('assign from const %s', 'std::is_assignable<%s &, const %s>::value'),
]


def witness():
    """source whose static_asserts fail exactly when a copy would compile; [(tag, class, form)]"""
    out = ['#include <type_traits>', '#include <utility>']
    out += ['#include "%s"' % h for _, h in CLASSES]
    # XmssBase is abstract: a derived class that adds nothing shows what its own copy operations allow
    out.append('''struct vsa_probe : XmssBase {
    using XmssBase::XmssBase;
    TSIGNATURE sign(const TMESSAGE &) override { return TSIGNATURE(); }
};
struct vsa_probe_fast : XmssFast { using XmssFast::XmssFast; };
struct vsa_probe_basic : XmssBasic { using XmssBasic::XmssBasic; };''')
    tags = []

    def add(cls, text, cond):
        t = 'VSA%d_' % len(tags)
        tags.append((t, cls, text))
        out.append('static_assert(!(%s), "%s");' % (cond, t))
    for cls in ('XmssFast', 'XmssBasic', 'XmssBase', 'vsa_probe', 'vsa_probe_fast', 'vsa_probe_basic', 'XmssPool'):
        for text, cond in FORMS:
            add(cls, text % cls, cond % (cls, cls))
    for a, b in (('XmssFast', 'XmssBase'), ('XmssBasic', 'XmssBase'), ('XmssFast', 'XmssBasic'), ('XmssBasic', 'XmssFast'), ('XmssBase', 'XmssFast'), ('XmssBase', 'XmssBasic')):
        add(a, 'construct from %s &' % b, 'std::is_constructible<%s, %s &>::value' % (a, b))
        add(a, 'construct from const %s &' % b, 'std::is_constructible<%s, const %s &>::value' % (a, b))
        add(a, 'assign from %s &' % b, 'std::is_assignable<%s &, %s &>::value' % (a, b))
        add(a, 'assign from const %s &' % b, 'std::is_assignable<%s &, const %s &>::value' % (a, b))
    for cls in ('XmssFast', 'XmssBasic'):
        add(cls, 'construct from std::shared_ptr<%s>' % cls, 'std::is_constructible<%s, std::shared_ptr<%s>>::value' % (cls, cls))
        add(cls, 'construct from %s *' % cls, 'std::is_constructible<%s, %s *>::value' % (cls, cls))
    return '\n'.join(out) + '\n', tags


CONTROL = '''#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
#include "qrl/xmssPool.h"
static_assert(std::is_constructible<XmssFast, const std::vector<uint8_t> &, unsigned char>::value, "VSACTL");
static_assert(std::is_constructible<XmssBasic, const std::vector<uint8_t> &, unsigned char, eHashFunction, eAddrFormatType>::value, "VSACTL");
'''

FLAGS = ['-x', 'c++', '-std=c++17', '-w', '-pthread', '-fsyntax-only', '-ferror-limit=0']


def clang(text, flags=()):
    with tempfile.TemporaryDirectory(prefix='vsa-wit') as d:
        p = d + '/witness.cpp'
        open(p, 'w').write(text)
        r = subprocess.run([PR.CLANG] + FLAGS + list(flags) + PR.incs() + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout, r.stderr


def types(c):
    rc, _, err = clang(CONTROL)
    if rc:
        return c.und('copy-does-not-compile', 'headers', 'the class headers do not compile here: ' + err[-600:])
    c.ok('control', 'the classes can be constructed from a seed')
    text, tags = witness()
    rc, _, err = clang(text)
    other = [ln for ln in err.split('\n') if ' error: ' in ln and not any(t[0] in ln for t in tags)]
    if other:
        return c.und('copy-does-not-compile', 'witness', 'the witness does not compile: ' + other[0][:400])
    for t, cls, form in tags:
        name = cls.replace('vsa_probe_fast', 'a class derived from XmssFast').replace('vsa_probe_basic', 'a class derived from XmssBasic').replace('vsa_probe', 'a class derived from XmssBase')
        form = re.sub(r'vsa_probe\w*', 'it', form)
        c.true('copy-does-not-compile', '%s: %s' % (name, form), t not in err, 'this compiles, so one key can have two index counters')


def methods(node, out, cls):
    for x in node.get('inner', []):
        k = x.get('kind')
        if k == 'CXXMethodDecl' and not x.get('isImplicit'):
            out.append((cls, x))
        elif k == 'FunctionTemplateDecl':
            methods(x, out, cls)


def clones(c):
    """no member function hands out another signing object"""
    src = '#include "qrl/xmssFast.h"\n#include "qrl/xmssBasic.h"\n'
    n = 0
    for cls in ('XmssBase', 'XmssFast', 'XmssBasic'):
        rc, out, err = clang(src, ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + cls])
        if rc:
            return c.und('no-clone', cls, err[-300:])
        dec = json.JSONDecoder()
        i = 0
        seen = set()
        while True:
            i = out.find('{', i)
            if i < 0:
                break
            node, i = dec.raw_decode(out, i)
            if node.get('kind') != 'CXXRecordDecl' or node.get('name') != cls or not node.get('completeDefinition'):
                continue
            ms = []
            methods(node, ms, cls)
            for _, m in ms:
                if m['id'] in seen:
                    continue
                seen.add(m['id'])
                q = m['type']['qualType']
                ret = q[:q.index('(')].strip()
                if m.get('storageClass') == 'static':
                    continue
                if m['name'] == 'operator=':
                    continue
                n += 1
                if re.search(r'\bXmss(Base|Fast|Basic)\b', ret) and not ret.endswith('&'):
                    c.bad('no-clone', '%s::%s' % (cls, m['name']), 'a member function returns %s: a second object for the same key' % ret)
    c.ok('no-clone', '%d member functions' % n)


def moved(c, fast):
    nm = 'XmssFast' if fast else 'XmssBasic'
    parts = [inb(x, 32) for x in ('SKSEED', 'SKPRF', 'PUBSEED', 'ROOT')]
    prog = PR.load(K.GROUPS + ['move'], need=False)
    a = Api(prog=prog)
    a.eng.models.update(genkey_models(prog, T.var('IDX', 32), parts))
    objs = []
    for i in range(2):
        s = a.inp('SEED%d' % i, 48)
        objs.append(a.value('vsa_fast_new', s, 48, 4, 1, 0) if fast else a.value('vsa_basic_new', s, 48, 4, 1, 0, 16))
    v = a.value('vsa_fast_moved' if fast else 'vsa_basic_moved', *objs)
    c.use(a.eng)
    c.equal('moved-from-holds-no-key', nm, v, 0, 64)


@check('C24', 'proof', 'compile-fail type witnesses, AST query and abstract interpretation of moves',
       'Each way of copying a signing object (construction, conversion and assignment from each reference kind, through base and derived '
       'classes) is a static_assert that must hold in a translation unit including the class headers; member functions are enumerated from the '
       'AST for one that hands out another signing object; and where the classes can be moved, the moved-from object holds no secret key.')
def c24(c):
    c.section('copy-does-not-compile', 'type witnesses', types, c)
    c.section('no-clone', 'member functions', clones, c)
    for fast in (True, False):
        c.section('moved-from-holds-no-key', 'moves', moved, c, fast)
