"""Type stubs of the native module, generated from the pybind11 registrations of the current tree."""
import glob
import os
import re
import pybind

PY = {'int32_t': 'int', 'int64_t': 'int', 'int': 'int', 'bool': 'bool', 'float': 'float', 'double': 'float', 'std::string': 'str', 'void': 'None',
      'torch::Tensor': 'torch.Tensor', 'RaggedAny': '_k2.ragged.RaggedTensor', 'RaggedShape': '_k2.ragged.RaggedShape', 'FsaOrVec': '_k2.RaggedArc', 'Fsa': '_k2.RaggedArc', 'FsaVec': '_k2.RaggedArc',
      'Ragged<Arc>': '_k2.RaggedArc', 'DenseFsaVec': '_k2.DenseFsaVec', 'rnnt_decoding::RnntDecodingStreams': '_k2.RnntDecodingStreams'}


def top_split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def pytype(t):
    """Python type of a C++ return type; Any when it is not one of the bound classes."""
    t = re.sub(r'\bconst\b|&|\bk2::', '', t.replace(' ', '').replace('const', ''))
    m = re.match(r'std::(pair|tuple)<(.*)>$', t)
    if m:
        return 'Tuple[%s]' % ', '.join(pytype(x) for x in top_split(m.group(2)))
    m = re.match(r'(?:torch|std|c10)::optional<(.*)>$', t)
    if m:
        x = pytype(m.group(1))
        return 'Optional[%s]' % x if x != 'Any' else 'Any'
    m = re.match(r'std::vector<(.*)>$', t)
    if m:
        return 'List[%s]' % pytype(m.group(1))
    return PY.get(t, 'Any')


CXX = {'RaggedTensor': 'RaggedAny', 'RaggedShape': 'RaggedShape', 'DenseFsaVec': 'DenseFsaVec', 'RaggedArc': 'Ragged'}
DECL = r'(?:^|\n)\s*(?:static\s+)?((?:std::)?[\w:]+(?:<[^;(){}]*?>)?\s*&?)\s+(?:(?:\w+)::)?(\w+)\s*\('


def returns():
    """C++ name, and (class, name) -> return type, from declarations of free functions and methods."""
    out = {}
    for f in glob.glob(pybind.REPO + '/k2/python/csrc/torch/**/*.h', recursive=True) + glob.glob(pybind.REPO + '/k2/csrc/*.h'):
        s = re.sub(r'//[^\n]*', '', open(f, encoding='utf-8').read())
        for m in re.finditer(r'\n(?:class|struct)\s+(\w+)[^;{]*\{', s):
            if m.group(1) in CXX.values():
                i, d = m.end(), 1
                while d and i < len(s):
                    d += {'{': 1, '}': -1}.get(s[i], 0)
                    i += 1
                for x in re.finditer(DECL, s[m.end():i]):
                    if x.group(1) not in ('return', 'else', 'new'):
                        out.setdefault((m.group(1), x.group(2)), set()).add(x.group(1).strip())
    for f in glob.glob(pybind.REPO + '/k2/python/csrc/torch/**/*.[ch]*', recursive=True):
        s = re.sub(r'//[^\n]*', '', open(f, encoding='utf-8').read())
        for m in re.finditer(DECL, s):
            if m.group(1) not in ('return', 'else', 'new', 'namespace', 'class', 'struct', 'static'):
                out.setdefault(m.group(2), set()).add(m.group(1))
    return {k: v.pop() for k, v in out.items() if len(v) == 1}


def write(dest):
    sigs = pybind.read()
    torch(dest)
    rets = returns()
    mods = {'_k2': ({}, {}), '_k2.ragged': ({}, {}), '_k2.version': ({}, {})}
    n = 0
    for name, ss in sigs.items():
        for mod in ('_k2.ragged', '_k2.version', '_k2'):
            if name.startswith(mod + '.'):
                break
        parts = name[len(mod) + 1:].split('.')
        funcs, classes = mods[mod]
        if len(parts) == 1:
            funcs[parts[0]] = ss
        else:
            classes.setdefault(parts[0], {})[parts[1]] = ss
    os.makedirs(dest + '/_k2', exist_ok=True)
    for mod, (funcs, classes) in mods.items():
        L = ['from typing import Any, List, Optional, Tuple, overload', 'import _k2', 'import _k2.ragged', 'import torch', '']
        if mod == '_k2':
            L += ['from _k2 import ragged as ragged', 'from _k2 import version as version']
        for f, ss in sorted(funcs.items()):
            n += len(ss)
            L += defs(f, ss, rets, '')
        for c, ms in sorted(classes.items()):
            L.append('class %s:' % c)
            if '__iter__' not in ms:
                L.append('    __iter__: None')
            for m, ss in sorted(ms.items()):
                n += len(ss)
                L += defs(m, ss, {k[1] if isinstance(k, tuple) else k: v for k, v in rets.items() if not isinstance(k, tuple)} | {k[1]: v for k, v in rets.items() if isinstance(k, tuple) and k[0] == CXX.get(c)}, '    ')
            L.append('')
        L += extra(mod, set(funcs) | set(classes) | {'ragged', 'version'}, mods)
        p = {'_k2': '/_k2/__init__.pyi', '_k2.ragged': '/_k2/ragged.pyi', '_k2.version': '/_k2/version.pyi'}[mod]
        open(dest + p, 'w', encoding='utf-8').write('\n'.join(L) + '\n')
    return n


TORCH = '''from typing import Any
from . import nn as nn, autograd as autograd, utils as utils
class Tensor:
    def __init__(self, *a: Any, **k: Any) -> None: ...
    def __getattr__(self, n: str) -> Any: ...
    def __setattr__(self, n: str, v: Any) -> None: ...
%s
def __getattr__(name: str) -> Any: ...
'''
SUB = 'from typing import Any\ndef __getattr__(name: str) -> Any: ...\n'


def torch(dest):
    """A stub of torch in which Tensor is a class of its own and all else is untyped."""
    ops = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and', 'or', 'xor', 'lshift', 'rshift']
    names = [p + o for o in ops for p in ('', 'r', 'i')] + ['neg', 'invert', 'abs', 'pos', 'getitem', 'setitem', 'delitem', 'len', 'iter', 'bool', 'int', 'float', 'index', 'contains',
                                                              'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'hash']
    body = '\n'.join('    def __%s__(self, *a: Any) -> %s: ...' % (n, {'len': 'int', 'bool': 'bool', 'int': 'int', 'float': 'float', 'index': 'int', 'contains': 'bool', 'hash': 'int', 'setitem': 'None',
                                                                              'delitem': 'None', 'eq': 'Any  # type: ignore', 'ne': 'Any  # type: ignore'}.get(n, 'Any')) for n in names)
    os.makedirs(dest + '/torch/utils', exist_ok=True)
    open(dest + '/torch/__init__.pyi', 'w').write(TORCH % body)
    for n in ('nn.pyi', 'autograd.pyi', 'utils/__init__.pyi', 'utils/dlpack.pyi'):
        open(dest + '/torch/' + n, 'w').write(SUB)


def extra(mod, have, mods):
    """m.attr("x") = ... and enumerations."""
    out = []
    for f in glob.glob(pybind.REPO + '/k2/python/csrc/**/*.cu', recursive=True):
        s = open(f, encoding='utf-8').read()
        is_version = os.path.basename(f) == 'version.cu'
        for m in re.finditer(r'\b(\w+)\.attr\("(\w+)"\)\s*=\s*(?:\w+\.attr\("(\w+)"\))?', s):
            if is_version == (mod == '_k2.version') and m.group(2) not in have:
                if mod == '_k2' and m.group(3) in mods['_k2.ragged'][1]:
                    out.append('from _k2.ragged import %s as %s' % (m.group(3), m.group(2)))
                    continue
                # a static method under a second name
                owner = [(md, c) for md, (_, cs) in mods.items() for c, ms in cs.items() for x in (ms.get(m.group(3)) or [])[:1] if x.kind == 'def_static']
                out.append('%s = %s.%s.%s' % (m.group(2), owner[0][0], owner[0][1], m.group(3)) if len(owner) == 1 else '%s: Any' % m.group(2))
        if mod == '_k2':
            for m in re.finditer(r'py::enum_<[^>]*>\s*\w*\s*\(\s*m\s*,\s*"(\w+)"[^;]*;', s):
                vals = re.findall(r'\.value\("(\w+)"', m.group(0))
                if m.group(1) in have:
                    continue
                out += ['class %s:' % m.group(1)] + ['    %s: Any' % v for v in vals]
    return out


BOUND = ('torch::Tensor', 'torch::optional<torch::Tensor>','RaggedAny', 'RaggedShape', 'FsaOrVec', 'FsaVec', 'Fsa', 'Ragged<Arc>', 'DenseFsaVec', 'std::string')


def paramtype(t):
    """Python type a C++ parameter takes, when it is one of the bound classes or a string; Any otherwise."""
    t = re.sub(r'\bconst\b|&|\bk2::', '', t.replace(' ', '').replace('const', ''))
    m = re.match(r'(?:torch|std|c10)::optional<(.*)>$', t)
    if m:
        x = paramtype(m.group(1))
        return 'Optional[%s]' % x if x != 'Any' else 'Any'
    return PY[t] if t in BOUND else 'Any'


def defs(name, ss, rets, ind):
    if ss[0].kind.startswith(('def_property', 'def_read')):
        s = ss[0]
        t = pytype(s.ret) if s.ret else pytype(rets.get((s.target or '').split('::')[-1], '?'))
        out = [ind + '@property', ind + 'def %s(self) -> %s: ...' % (name, t)]
        if ss[0].kind in ('def_property', 'def_readwrite'):
            out += [ind + '@%s.setter' % name, ind + 'def %s(self, v: Any) -> None: ...' % name]
        return out
    out = []
    for s in ss:
        if len(ss) > 1:
            out.append(ind + '@overload')
        ps = []
        if ind:
            if s.kind == 'def_static':
                out.append(ind + '@staticmethod')
            else:
                ps.append('self')
        if s.args:
            seen = False
            cp = [t for t, _ in s.params or []]
            cp = cp[-len(s.args):] if len(cp) >= len(s.args) else []
            for i, (a, d) in enumerate(s.args):
                t = paramtype(cp[i]) if cp and not (d or '').startswith('py :: none') else 'Any'
                ps.append('%s: %s%s' % (a, t, ' = ...' if d is not None or seen else ''))
                seen = seen or d is not None
        elif s.params is not None and not (name == '__init__' and not s.params):
            k = len(s.params) - (1 if ind and s.kind != 'def_static' and name != '__init__' else 0)
            ps += ['_p%d: %s' % (i, paramtype(t)) for i, (t, _) in enumerate(s.params[len(s.params) - k:])]
            if k:
                ps.append('/')
        else:
            ps.append('*args: Any')
        t = 'None' if name == '__init__' else pytype(s.ret) if s.ret else pytype(rets.get(re.sub(r'<.*', '', s.target or '').split('::')[-1], '?'))
        if s.target and 'static_cast' in s.target and not s.ret:
            t = 'Any'
        out.append(ind + 'def %s(%s) -> %s: ...' % (name, ', '.join(ps), t))
    return out
