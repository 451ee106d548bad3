"""Builds LLVM IR from /repo's current working tree and loads it."""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import time
from .ir import Module

REPO = os.environ.get('VSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
CLANG = LLVM + 'clang++'
STUBS = VERIF + '/stubs'


class BuildError(Exception):
    pass


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for root in (REPO + '/src', REPO + '/deps', STUBS):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                try:
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    h.update(open(__file__, 'rb').read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def cache_dir():
    base = os.path.join(tempfile.gettempdir(), 'vsa-ir-%d' % os.getuid())
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, tree_hash())
    os.makedirs(d, exist_ok=True)
    # keep the cache small
    ents = []
    for x in os.listdir(base):
        try:
            ents.append((os.stat(os.path.join(base, x)).st_mtime, os.path.join(base, x)))
        except OSError:
            pass
    for when, p in sorted(ents)[:-6]:
        if p != d and time.time() - when > 1800:
            shutil.rmtree(p, ignore_errors=True)
    return d


CXXFLAGS = ['-x', 'c++', '-std=c++17', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
            '-gline-tables-only', '-fno-access-control', '-pthread', '-fPIC']


def incs(std=True):
    r = REPO
    return (['-I' + STUBS + '/std'] if std else []) + ['-I' + x for x in (r + '/src/api', r + '/src', r + '/deps', STUBS + '/include', r + '/src/xmss-alt',
                               r + '/src/qrl', r + '/src/shasha', r + '/src/dilithium', r + '/src/kyber')]


def run(cmd, env=None):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


def compile_cxx(src, out, flags=(), passes='function(sroa,simplifycfg)', std=True):
    if os.path.exists(out):
        return out
    tmp = '%s.%d.tmp' % (out, os.getpid())
    run([CLANG] + CXXFLAGS + list(flags) + incs(std) + ['-S', '-emit-llvm', src, '-o', tmp])
    run([LLVM + 'opt', '-S', '-passes=' + passes, tmp, '-o', tmp + '2'])
    os.remove(tmp)
    os.rename(tmp + '2', out)
    return out


def compile_rust(src, out, name, flags=()):
    if os.path.exists(out):
        return out
    tmp = '%s.%d.tmp' % (out, os.getpid())
    run(['rustc', '-Zshare-generics=no', '--edition', '2021', '--crate-type', 'lib', '--crate-name', name, '-A', 'warnings', '-C', 'opt-level=1',
         '-C', 'debuginfo=1', '-C', 'codegen-units=1', '-C', 'panic=abort', '-C', 'link-dead-code=yes', '--emit=llvm-ir'] + list(flags) + [src, '-o', tmp], dict(os.environ, RUSTC_BOOTSTRAP='1'))
    os.rename(tmp, out)
    return out


UNITS = {
    'xmss': lambda: sorted(glob.glob(REPO + '/src/xmss-alt/*.c')),
    'qrl': lambda: [p for p in sorted(glob.glob(REPO + '/src/qrl/*.cpp'))],
    'shasha': lambda: sorted(glob.glob(REPO + '/src/shasha/*.cpp')),
    'drv': lambda: [STUBS + '/drivers/xmss.cpp'],
    'text': lambda: [STUBS + '/drivers/misc.cpp', REPO + '/src/qrl/misc.cpp', REPO + '/src/qrl/wordlist.cpp', REPO + '/src/qrl/hashing.cpp'],
    'pool': lambda: [STUBS + '/drivers/pool.cpp', REPO + '/src/qrl/xmssPool.cpp', REPO + '/src/qrl/hashing.cpp'],
    'pqdrv': lambda: [STUBS + '/drivers/pq.cpp', STUBS + '/drivers/kyb.cpp', REPO + '/src/dilithium/dilithium.cpp', REPO + '/src/kyber/kyber.cpp'],
    'jspq': lambda: [STUBS + '/drivers/jsdil.cpp', STUBS + '/drivers/jskyb.cpp'],
    'jsxmss': lambda: [STUBS + '/drivers/jsxmss.cpp'],
    'layout': lambda: [STUBS + '/drivers/layout.cpp'],
    'move': lambda: [STUBS + '/drivers/move.cpp'],
    'js': lambda: sorted(glob.glob(REPO + '/src/jswrapper/*.cpp')),
    'pq': lambda: [REPO + '/src/dilithium/dilithium.cpp', REPO + '/src/kyber/kyber.cpp'],
}

_TPL = re.compile(r'<[^<>]*>')


def strip_args(d):
    """qualified name without arguments/return type; template arguments kept"""
    s = d
    for suf in (' const', ' &', ' &&', ' volatile'):
        if s.endswith(suf):
            s = s[:-len(suf)]
    if s.endswith(')'):
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ')':
                depth += 1
            elif s[i] == '(':
                depth -= 1
                if depth == 0:
                    break
        s = s[:i]
    # abi tags
    s = re.sub(r'\[abi:\w+\]', '', s)
    # return type of a template function: the last top-level space
    depth = 0
    cut = -1
    for i, ch in enumerate(s):
        if ch in '<({':
            depth += 1
        elif ch in '>)}':
            depth -= 1
        elif ch == ' ' and depth == 0 and not s[:i].endswith('operator') and s[i + 1:i + 2] not in ('>',):
            cut = i
    if cut >= 0 and 'operator' not in s[:cut]:
        s = s[cut + 1:]
    return s


def strip_templates(s):
    while True:
        n = _TPL.sub('', s)
        if n == s:
            return s
        s = n


class Program:
    """a set of IR modules analysed together"""

    def __init__(self, mods, failed=()):
        self.mods = mods
        self.failed = list(failed)
        self.ext = {}
        self.bybase = {}
        self.pure = set()
        names = set()
        for m in mods:
            for n in m.funcs:
                names.add(n)
            names |= set(m.decls)
            names |= set(m.aliases)
            names |= set(m.globals)
        names = sorted(names)
        p = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        self._dem = dict(zip(names, p.stdout.split('\n')))
        self._base = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.internal:
                    self.ext.setdefault(n, f)
                self.bybase.setdefault(self.base(n), []).append(f)
            for a, t in m.aliases.items():
                if t in m.funcs:
                    self.ext.setdefault(a, m.funcs[t])
                    self.bybase.setdefault(self.base(a), []).append(m.funcs[t])

    def dem(self, n):
        d = self._dem.get(n, n)
        d = re.sub(r'::h[0-9a-f]{16}(\b|$)', '', d)
        d = re.sub(r'\[[0-9a-f]{6,}\]', '', d)
        return d

    def base(self, n):
        b = self._base.get(n)
        if b is None:
            b = self._base[n] = strip_args(self.dem(n))
        return b

    def external(self, n):
        return self.ext.get(n)

    def find_global(self, n):
        for m in self.mods:
            t = m.globals.get(n)
            if t is not None and not re.match(r'(\w+ )*external ', t):
                return m, t
        return None

    def find(self, base, file=None):
        """the defined function with this qualified name (optionally in a given file)"""
        fs = self.bybase.get(base, [])
        if file:
            fs = [f for f in fs if (f.loc() or ('',))[0] and f.loc()[0].endswith(file)]
        return fs[0] if fs else None

    def findall(self, base):
        return self.bybase.get(base, [])


_mem = {}


def load(groups, flags=(), tag='', need=True, std=True):
    """load C++ IR of the named unit groups"""
    key = ('cxx', tuple(groups), tuple(flags), std)
    if key in _mem:
        return _mem[key]
    d = cache_dir()
    srcs = []
    for g in groups:
        srcs += [x for x in UNITS[g]() if x not in srcs]
    fl = hashlib.sha256((' '.join(flags) + ('' if std else '#')).encode()).hexdigest()[:6]
    outs = []
    failed = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = []
        for s in srcs:
            rel = os.path.relpath(s, REPO).replace('/', '_')
            futs.append((s, ex.submit(compile_cxx, s, '%s/%s.%s.ll' % (d, rel, fl), flags, std=std)))
        for s, f in futs:
            try:
                outs.append((s, f.result()))
            except BuildError as e:
                failed.append((s, str(e)))
    if failed and need is True:
        raise BuildError(failed[0][1])
    mods = [Module(o, os.path.relpath(s, REPO)) for s, o in outs]
    p = _mem[key] = Program(mods, failed)
    return p


def load_rust(kind='scope'):
    key = ('rust', kind)
    if key in _mem:
        return _mem[key]
    d = cache_dir()
    src = d + '/scope.rs'
    with open(src + '.%d' % os.getpid(), 'w') as f:
        f.write(RUST_SCOPE.replace('/repo/', REPO + '/'))
    os.rename(src + '.%d' % os.getpid(), src)
    o = compile_rust(src, d + '/scope_rust.ll', 'qrllib')
    p = _mem[key] = Program([Module(o, 'rust')])
    return p


RUST_SCOPE = '''
pub mod rust_wrapper {
    #[path = "/repo/src/rust_wrapper/errors.rs"]
    pub mod errors;
    pub mod qrl {
        #[path = "/repo/src/rust_wrapper/qrl/qrl_address_format.rs"]
        pub mod qrl_address_format;
        #[path = "/repo/src/rust_wrapper/qrl/qrl_descriptor.rs"]
        pub mod qrl_descriptor;
        #[path = "/repo/src/rust_wrapper/qrl/wordlist.rs"]
        pub mod wordlist;
    }
    pub mod xmss_alt {
        #![allow(non_snake_case)]
        #![allow(dead_code)]
        #[path = "/repo/src/rust_wrapper/xmss_alt/fips202.rs"]
        pub mod fips202;
        #[path = "/repo/src/rust_wrapper/xmss_alt/hash_address.rs"]
        pub mod hash_address;
        #[path = "/repo/src/rust_wrapper/xmss_alt/hash_functions.rs"]
        pub mod hash_functions;
    }
}

use rust_wrapper::qrl::qrl_descriptor::{QRLDescriptor, SignatureType};
use rust_wrapper::qrl::qrl_address_format::AddrFormatType;
use rust_wrapper::xmss_alt::hash_functions::HashFunction;
unsafe fn vsar_putd(d: &QRLDescriptor, f: *mut u32, b: *mut u8) -> usize {
    *f.add(0) = *d.get_hash_function() as u32;
    *f.add(1) = *d.get_signature_type() as u32;
    *f.add(2) = d.get_height() as u32;
    *f.add(3) = *d.get_addr_format_type() as u32;
    let g = d.get_bytes();
    std::ptr::copy_nonoverlapping(g.as_ptr(), b, g.len());
    g.len()
}
#[no_mangle]
pub unsafe extern "C" fn vsar_desc_from(p: *const u8, n: usize, f: *mut u32, b: *mut u8) -> usize {
    let v = std::slice::from_raw_parts(p, n).to_vec();
    match QRLDescriptor::from_bytes(&v) { Ok(d) => vsar_putd(&d, f, b), Err(_) => 1000 }
}
#[no_mangle]
pub unsafe extern "C" fn vsar_desc_seed(p: *const u8, n: usize, f: *mut u32, b: *mut u8) -> usize {
    let v = std::slice::from_raw_parts(p, n).to_vec();
    match QRLDescriptor::from_extended_seed(&v) { Ok(d) => vsar_putd(&d, f, b), Err(_) => 1000 }
}
#[no_mangle]
pub unsafe extern "C" fn vsar_desc_pk(p: *const u8, n: usize, f: *mut u32, b: *mut u8) -> usize {
    let v = std::slice::from_raw_parts(p, n).to_vec();
    match QRLDescriptor::from_extended_pk(&v) { Ok(d) => vsar_putd(&d, f, b), Err(_) => 1000 }
}
#[no_mangle]
pub unsafe extern "C" fn vsar_desc_new(hf: u32, h: u8, f: *mut u32, b: *mut u8) -> usize {
    let hf = if hf == 0 { HashFunction::SHA2_256 } else if hf == 1 { HashFunction::Shake128 } else { HashFunction::Shake256 };
    let d = QRLDescriptor::new(hf, SignatureType::XMSS, h, AddrFormatType::SHA256_2X);
    vsar_putd(&d, f, b)
}
#[no_mangle]
pub unsafe extern "C" fn vsar_words() -> usize { rust_wrapper::qrl::wordlist::WORDLIST.len() }
#[no_mangle]
pub unsafe extern "C" fn vsar_word(i: usize, o: *mut u8) -> usize {
    let w = rust_wrapper::qrl::wordlist::WORDLIST[i];
    std::ptr::copy_nonoverlapping(w.as_ptr(), o, w.len());
    w.len()
}
'''
