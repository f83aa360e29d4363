"""C++ front end: builds the extractor, runs it on the translation units of the
build and loads the simplified syntax trees."""
import concurrent.futures as cf
import glob as _glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from harness import Broken, VERIF

SRC = os.environ.get('K2_SRC', '/repo')
TORCH = None
CORE, BIND, TORCHLIB = 'core', 'bind', 'torchlib'
SKIP = {'k2/python/csrc/torch/mutual_information_cuda.cu', 'k2/python/csrc/version.cu', 'k2/csrc/default_context.cu', 'k2/csrc/moderngpu_allocator.cu'}


def torch_dir():
    for d in _glob.glob('/opt/venv/lib/python3*/site-packages/torch') + _glob.glob('/opt/*/lib/python3*/site-packages/torch'):
        if os.path.isdir(d + '/include'):
            return d
    raise Broken('no torch headers')


def flags(src):
    t = torch_dir()
    py = sorted(_glob.glob('/usr/include/python3.*'))
    return ['-x', 'c++', '-w', '-DCUB_WRAPPED_NAMESPACE=k2', '-DK2_TORCH_VERSION_MAJOR=2', '-DK2_TORCH_VERSION_MINOR=4', '-DK2_USE_PYTORCH',
            '-DTHRUST_NS_QUALIFIER=thrust', '-I%s/include/torch/csrc/api/include' % t, '-I%s/include' % t, '-I' + src, '-I' + (py[-1] if py else '/usr/include'),
            '-D_GLIBCXX_USE_CXX11_ABI=0', '-O3', '-DNDEBUG', '-std=c++17', '-fPIC']


def units(src, scopes):
    out = []
    pats = {CORE: ['k2/csrc/*.cu', 'k2/csrc/host/*.cc'], BIND: ['k2/python/csrc/*.cu', 'k2/python/csrc/torch/*.cu', 'k2/python/csrc/torch/v2/*.cu'],
            TORCHLIB: ['k2/torch/csrc/*.cu']}
    for s in scopes:
        for p in pats[s]:
            for f in sorted(_glob.glob(os.path.join(src, p))):
                r = os.path.relpath(f, src)
                b = os.path.splitext(os.path.basename(r))[0]
                if r in SKIP or b.endswith('_test') or b == 'test_utils':
                    continue
                out.append(r)
    return out


def extractor(tmp):
    e = os.environ.get('K2_EXTRACT')
    if e and os.path.exists(e):
        return e
    ll = sorted(_glob.glob('/usr/lib/llvm-*'))
    lib = sorted(_glob.glob('/usr/lib/llvm-18/lib/libclang-cpp.so*') + _glob.glob('/usr/lib/x86_64-linux-gnu/libclang-cpp.so*'))
    if not lib:
        raise Broken('no libclang-cpp')
    out = os.path.join(tmp, 'extract')
    r = subprocess.run(['clang++', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', os.path.join(VERIF, 'cc', 'extract.cc'), '-o', out,
                        lib[-1], '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('the extractor does not build: ' + r.stdout[-500:])
    return out


class Func:
    def __init__(self, d, tu):
        self.d, self.tu = d, tu
        self.name, self.file, self.line = d['f'], d['file'], d['l']
        self.ta = d.get('ta', '')
        self.inst, self.dep = d.get('inst'), d.get('dep')
        self.params, self.body, self.ret = d['p'], d.get('b'), d['ret']
        self.cls = d.get('cls')
        self.const = d.get('const')

    def loc(self, n=None):
        return '%s:%d' % (self.file, (n['l'] if n is not None else self.line))

    def __repr__(self):
        return '<%s %s:%d>' % (self.name, self.file, self.line)


class Cxx:
    def __init__(self, scopes=(CORE,), src=None):
        self.src = os.path.realpath(src or SRC)
        self.units = units(self.src, scopes)
        if not self.units:
            raise Broken('no translation units')
        self.funcs, self.records, self.gvars = [], {}, {}
        self.by_name = {}
        cache = os.environ.get('K2_CXX_CACHE')      # development only
        base = None
        if cache:
            base = hashlib.sha1(open(os.path.join(VERIF, 'cc', 'extract.cc'), 'rb').read())
            for root, ds, fs in os.walk(os.path.join(self.src, 'k2')):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith('.h'):
                        base.update(f.encode() + open(os.path.join(root, f), 'rb').read())
        tmp = tempfile.mkdtemp(prefix='k2cxx')
        try:
            ex = extractor(tmp)
            fl = flags(self.src)

            def one(u):
                key = None
                if base:
                    h = base.copy()
                    h.update(u.encode() + open(os.path.join(self.src, u), 'rb').read())
                    key = os.path.join(cache, h.hexdigest())
                    if os.path.exists(key):
                        return open(key).read()
                r = subprocess.run([ex, self.src + '/', os.path.join(self.src, u), '--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode or not r.stdout:
                    raise Broken('cannot analyse %s: %s' % (u, r.stderr[-400:]))
                if key:
                    os.makedirs(cache, exist_ok=True)
                    open(key, 'w').write(r.stdout)
                return r.stdout

            # the large ones first
            order = sorted(self.units, key=lambda u: (not u.startswith('k2/python') and not u.startswith('k2/torch'), u))
            with cf.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
                res = dict(zip(order, pool.map(one, order)))
            texts = [(u, res[u]) for u in self.units]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.load(texts)

    def load(self, texts):
        seen = set()
        for u, text in texts:
            for line in text.split('\n'):
                if not line:
                    continue
                # header functions appear in every unit
                h = hash(line[:200]) if False else None
                d = json.loads(line)
                if d['k'] == 'func':
                    k = (d['file'], d['l'], d['f'], d.get('ta', ''), d.get('dep'))
                    if k in seen or d['file'].endswith(('k2/csrc/eval.h',)) and d.get('inst'):
                        continue
                    seen.add(k)
                    f = Func(d, u)
                    self.funcs.append(f)
                    self.by_name.setdefault(f.name, []).append(f)
                elif d['k'] == 'record':
                    if d['f'] not in self.records or not d.get('dep'):
                        self.records[d['f']] = d
                else:
                    self.gvars[d['f']] = d


def walk(n):
    """All nodes under n, in source order, lambdas included."""
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def shortname(f):
    return f.rsplit('::', 1)[-1]


def text(n, depth=0):
    """Readable form of an expression."""
    if n is None:
        return ''
    k = n.get('k')
    if k == 'ref':
        return shortname(n['n'])
    if k == 'mem':
        return (text(n['o']) + ('->' if n.get('arrow') else '.') if n.get('o') else '') + n['n']
    if k == 'this':
        return 'this'
    if k in ('int', 'flt'):
        return str(n['v'])
    if k == 'boolean':
        return 'true' if n['v'] else 'false'
    if k == 'null':
        return 'nullptr'
    if k == 'str':
        return '"%s"' % n['v'][:30]
    if k == 'call':
        return (text(n['o']) + ('->' if n.get('arrow') else '.') if n.get('o') else '') + (shortname(n['f']) if 'f' in n else text(n.get('c'))) + '(' + ', '.join(text(a) for a in n['a'] if a and a['k'] != 'dflt') + ')'
    if k == 'opcall':
        a = [text(x) for x in n['a']]
        if n['op'] == '()':
            return a[0] + '(' + ', '.join(a[1:]) + ')'
        if n['op'] == '[]':
            return a[0] + '[' + ', '.join(a[1:]) + ']'
        return (' %s ' % n['op']).join(a) if len(a) == 2 else n['op'] + a[0]
    if k == 'bin':
        return '(%s %s %s)' % (text(n['a']), n['op'], text(n['b']))
    if k == 'un':
        return n['op'] + text(n['e'])
    if k == 'idx':
        return '%s[%s]' % (text(n['a']), text(n['i']))
    if k == 'ctor':
        return shortname(n['t']) + '(' + ', '.join(text(a) for a in n['a']) + ')'
    if k in ('cast', 'bool', 'dflt'):
        return text(n['e'])
    if k == 'cond':
        return '(%s ? %s : %s)' % (text(n['c']), text(n['t']), text(n['f']))
    if k == 'list':
        return '{' + ', '.join(text(a) for a in n['a']) + '}'
    if k == 'lambda':
        return '[lambda]'
    return k
