"""Makes and confirms a planted bug.  seed.py spec.py: spec defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, and DEMO (C++) or
DEMO_RS (Rust).  Writes /verif/seeded/ID, then confirms it in a scratch copy of /repo with the build's own flags."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(spec):
    s = {}
    exec(open(spec).read(), s)
    d = '%s/seeded/%s' % (V, s['ID'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for rel, old, new in s['EDITS']:
        p = '/repo/' + rel
        t = open(p).read()
        assert t.count(old) == 1, (rel, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
    try:
        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/vsa-seed-test.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = json.load(open('/tmp/vsa-seed-test.json'))
        missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(r['passed'])
        if missing:
            print('   STABLE TESTS FAIL', sorted(missing))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    if 'DEMO' in s:
        open(d + '/demo.cpp', 'w').write(s['DEMO'])
        shutil.copy(V + '/tools/demo/demo.sh', d + '/demo.sh')
        shutil.copytree(V + '/tools/demo/stub', d + '/stub')
    elif 'DEMO_RS' in s:
        open(d + '/demo.rs', 'w').write(s['DEMO_RS'])
        shutil.copy(V + '/tools/demo/demo_rust.sh', d + '/demo.sh')
    if 'DEMO_SH' in s:
        open(d + '/demo.sh', 'w').write(s['DEMO_SH'])
    os.chmod(d + '/demo.sh', 0o755)
    return s


def confirm(ident):
    d = '%s/seeded/%s' % (V, ident)
    t = tempfile.mkdtemp(prefix='vsa-seed')
    try:
        subprocess.run('cp -a /repo/src /repo/deps %s' % t, shell=True, check=True)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run(['patch', '-p1', '-s', '-d', t, '-i', d + '/patch.diff'], check=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(t)
    print(ident, 'clean', a.returncode, 'patched', b.returncode, 'OK' if a.returncode == 0 and b.returncode not in (0, 2) else 'BAD')
    if not (a.returncode == 0 and b.returncode not in (0, 2)):
        print(a.stdout[-1500:], b.stdout[-1500:])
    else:
        print('   ', b.stdout.strip()[-300:])


def checks(ident, props):
    d = '%s/seeded/%s' % (V, ident)
    t = tempfile.mkdtemp(prefix='vsa-seed')
    try:
        subprocess.run('cp -a /repo/src /repo/deps %s' % t, shell=True, check=True)
        subprocess.run(['patch', '-p1', '-s', '-d', t, '-i', d + '/patch.diff'], check=True)
        for p in props:
            r = subprocess.run(['python3', V + '/sa/main.py', 'check', p], env=dict(os.environ, VSA_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print('   ', p, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'missed rc=%d' % r.returncode, r.stdout.strip().split('\n')[0][:260])
            if r.returncode == 1:
                print('      ', r.stdout.strip().split('\n')[1][:400])
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    for spec in sys.argv[1:]:
        if os.path.exists(spec):
            s = make(spec)
            i, p = s['ID'], s['PROP']
        else:
            i = spec
            p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
        confirm(i)
        checks(i, [p])
