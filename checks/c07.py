#!/usr/bin/env python3
"""C07: the native functions leave the storage of their inputs as it was."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
from cxx import *
from cxxpath import strip, is_ptr
from cxxalias import Alias, FnAlias

sys.setrecursionlimit(100000)
SKIP_FILES = ('k2/torch/csrc/parse_options', 'k2/csrc/log.', 'k2/csrc/eval.h', 'k2/csrc/fake_cuda.h', 'k2/csrc/pinned_context', 'k2/csrc/hash')
# documented to work in place: (function or binding, parameter)
IN_PLACE = {('k2::CopyTensorElements', 1), ('k2::MutualInformationCpu', 3), ('fix_final_labels', 0), ('fix_final_labels', 1), ('sort_sublists', 0), ('mutual_information_forward', 3)}
# self and the streaming state of a decoder
STATE = ('DecodeStateInfo', 'OnlineDenseIntersecter', 'RnntDecodingStream', 'RnntStream')
# value classes: their methods do not write their own elements, but for
VALUES = re.compile(r'k2::(RaggedAny|Ragged|RaggedShape|Array1|Array2|Tensor|FsaClass|DenseFsaVec|RaggedShapeIndexIterator)$')
WRITING = {('RaggedAny', 'Sort')}
DEF = ('def', 'def_static', 'def_property', 'def_property_readonly', 'init', 'pickle', 'factory')


class Lam:
    ta = ''

    def __init__(self, f, l):
        self.fn, self.body, self.params, self.d = f, l['b'], l['p'], {}
        self.name, self.tu, self.file = f.name, f.tu, f.file

    def loc(self, n):
        return '%s:%d' % (self.file, n['l'])


def bindings(f):
    """(name, lambda) of the lambdas registered with pybind."""
    for n in walk(f.body):
        if n['k'] != 'call' or not (shortname(n.get('f') or '') in DEF or n.get('n') in DEF or strip(n.get('c') or {'k': ''})['k'] == 'mem' and n['c'].get('n') in DEF):
            continue
        name = [strip(a)['v'] for a in n['a'] if a is not None and strip(a)['k'] == 'str']
        for a in n['a']:
            for m in walk(a):
                if m['k'] == 'lambda' and m['b'] is not None:
                    yield (name[0] if name else '__init__'), m


def array_input(t):
    """Whether a parameter of type t is an input with storage."""
    if FnAlias.scalar(t):
        return False
    t0 = t.replace('const ', '').rstrip('& ').strip()
    if t0.endswith('**'):
        return FnAlias.array_type(t0.rstrip('* '))
    if is_ptr(t):
        return t.startswith('const ') and FnAlias.array_type(t0.rstrip('* ').strip())
    return FnAlias.array_type(t0) and not t0.startswith(('std::vector<int', 'std::vector<float', 'std::vector<std::basic_string'))


def public(f, patterns):
    """Declared in a header that offers it (helpers of one file, and of the inline
    headers, are judged where they are called)."""
    d = (f.d.get('decl') or patterns.get((f.file, f.line)) or {}).get('file') or f.file
    return d.endswith('.h') and not d.endswith('_inl.h')


def plain_name(f):
    s, t = f.name.replace('k2::', '', 1), None
    while s != t:
        s, t = re.sub(r'<[^<>]*>', '', s), s
    return s


def how_text(n, how):
    return how if how.startswith('through') else 'written here: %s' % how


def handles(c, prog):
    """Tensors share their description (shape, offset) through a pointer to it: what is changed through such a pointer is one's own."""
    for f in prog.funcs:
        if f.body is None or f.dep or f.file.startswith(SKIP_FILES):
            continue
        held, given = {p['d']: None for p in f.params if 'TensorImpl' in p['t'] and p.get('d') is not None}, {}
        for n in walk(f.body):
            if n['k'] == 'decl' and isinstance(n.get('b'), list):
                for v in n['b']:
                    if re.search(r'(shared_ptr<k2::TensorImpl>|k2::TensorImpl ?[*&])', v['t']):
                        held[v['d']] = v.get('i')
            elif n['k'] in ('bin', 'opcall') and n['op'] == '=':
                l, r = (n['a'], n['b']) if n['k'] == 'bin' else n['a'][:2]
                if strip(l)['k'] == 'ref':
                    given.setdefault(strip(l).get('d'), []).append(r)

        def own(e, depth=0):
            e = strip(e) if e is not None else None
            while e is not None and e['k'] == 'ctor' and len(e['a']) == 1:
                e = strip(e['a'][0])
            if e is None or e['k'] in ('null', 'new') or e['k'] == 'ctor' and not e['a'] or e['k'] == 'call' and shortname(e.get('f', '')) in ('make_shared', 'make_unique'):
                return True
            if e['k'] == 'cond':
                return own(e['t'], depth) and own(e['f'], depth)
            if e['k'] in ('un', 'opcall') and e['op'] in ('*', '&', '->'):
                return own(e['e'] if e['k'] == 'un' else e['a'][0], depth)
            if e['k'] == 'call' and shortname(e.get('f', '')) in ('get', 'move'):
                return own(e['o'] if e.get('o') is not None else e['a'][0], depth)
            if e['k'] == 'ref' and e.get('d') in held and depth < 5:
                if held[e['d']] is None and e.get('dk') == 'param':
                    return False
                return own(held[e['d']], depth + 1) and all(own(x, depth + 1) for x in given.get(e['d'], ()))
            return False

        def through(e):
            """The pointer a part of a description is reached through."""
            while e is not None:
                e = strip(e)
                if e is None:
                    return None
                t = str(e.get('t'))
                if e['k'] == 'opcall' and e['op'] in ('->', '*') and 'TensorImpl' in t:
                    return e['a'][0]
                if e['k'] in ('ref', 'mem') and 'TensorImpl' in t or e['k'] == 'call' and 'TensorImpl' in t:
                    return e
                e = e.get('o') if e['k'] in ('mem', 'call') else e['e'] if e['k'] == 'un' and e['op'] == '*' else e.get('a') if e['k'] == 'idx' else None
            return None

        for n in walk(f.body):
            e = None
            if n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or n['k'] == 'opcall' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                l = strip(n['a'] if n['k'] == 'bin' else n['a'][0])
                e = through(l['o']) if l['k'] == 'mem' and l.get('o') is not None else through(l) if l['k'] in ('un', 'opcall') else None
            elif n['k'] == 'un' and n['op'] in ('++', '--') and strip(n['e'])['k'] == 'mem':
                e = through(strip(n['e'])['o'])
            elif n['k'] == 'call' and n.get('o') is not None and not n.get('const') and strip(n['o'])['k'] in ('mem', 'opcall') and shortname(n.get('f', '')).startswith(('Set', 'Resize', 'Reset')):
                e = through(strip(n['o']))
            if e is None:
                continue
            x = strip(e)
            inst = '%s:%s' % (plain_name(f), text(x))
            if x['k'] == 'mem' and strip(x.get('o') or {'k': 'this'})['k'] == 'this' and (f.d.get('ctor') or shortname(f.name) == 'Init'):
                c.ob('handle', inst)
                continue
            c.ob('handle', inst)
            if not own(x):
                c.bad('handle', inst, f.loc(n), '`%s` changes the description of a tensor that others hold, too (`%s` is not made here)' % (text(n)[:60], text(x)))


def main(c):
    prog = Cxx((CORE, BIND, TORCHLIB))
    A = Alias(prog)
    nf = nb = 0
    patterns = {(f.file, f.line): f.d['decl'] for f in prog.funcs if f.dep and f.d.get('decl')}
    for f in prog.funcs:
        if f.body is None or f.dep or f.file.startswith(SKIP_FILES) or re.search(r'::(internal|detail|\w+_internal)::', f.name):
            continue
        plain = plain_name(f)
        cls = f.d.get('cls') and 'k2::' + plain.rsplit('::', 1)[0]
        if not public(f, patterns):
            continue
        if re.match(r'(Set|Scale|Delete)[A-Z_]', shortname(f.name)):
            continue        # what it is for
        ret, writes, _ = A.summary(f)
        nf += 1
        for i, p in enumerate(f.params):
            if not array_input(p['t']) or any(s in p['t'] for s in STATE) or (f.name, i) in IN_PLACE:
                continue
            inst = '%s(%s)' % (plain, p['n'])
            c.ob('input-storage', inst)
            for (a, b, path), (n, how) in writes.items():
                if a == 'p' and b == i:
                    c.bad('input-storage', inst, f.loc(n), 'elements of the input `%s`%s are overwritten (%s)' % (p['n'], ' (its %s)' % path if path else '', how_text(n, how)))
        # the arrays themselves have methods that write; their const ones do not
        if cls and VALUES.match(cls) and not f.d.get('ctor') and (shortname(cls), shortname(f.name)) not in WRITING and (f.d.get('const') or shortname(cls) not in ('Array1', 'Array2')):
            c.ob('own-storage', plain)
            for (a, b, path), (n, how) in writes.items():
                if a == 't':
                    c.bad('own-storage', plain, f.loc(n), 'the elements of the object itself%s are overwritten (%s)' % (' (%s)' % b if b else '', how_text(n, how)))
    handles(c, prog)
    for f in prog.funcs:
        if f.body is None or not f.file.startswith(('k2/python/csrc/', 'k2/torch/csrc/')):
            continue
        for name, l in bindings(f):
            g = Lam(f, l)
            w = FnAlias(A, g)
            w.run()
            nb += 1
            for i, p in enumerate(g.params):
                if not array_input(p['t']) and not FnAlias.torch(p['t']) or any(s in p['t'] for s in STATE) or (name, i) in IN_PLACE:
                    continue
                inst = '%s.%s(%s)' % (shortname(f.name), name, p['n'])
                c.ob('binding', inst)
                for (a, b, path), (n, how) in w.writes.items():
                    if a == 'p' and b == i:
                        c.bad('binding', inst, g.loc(n), 'elements of the argument `%s` of the binding `%s`%s are overwritten (%s)' % (p['n'], name, ' (its %s)' % path if path else '', how_text(n, how)))
    c.floor('input-storage', 250)
    c.floor('own-storage', 60)
    c.floor('binding', 80)
    c.floor('handle', 1)
    c.analysed['functions judged'] = nf
    c.analysed['functions summarised'] = len(A.memo)
    c.analysed['bindings judged'] = nb
    c.analysed['units'] = len(prog.units)


if __name__ == '__main__':
    harness.main('C07', 'flow-sensitive, interprocedural alias and effect analysis: which storage each native function writes, in terms of its parameters', main)
