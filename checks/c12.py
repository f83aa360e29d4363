#!/usr/bin/env python3
"""C12: output pointers of the native code: null is allowed where it is offered,
and what is given is set on every way out."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
from cxx import *
from cxxpath import *

sys.setrecursionlimit(100000)
SKIP_FILES = ('k2/torch/csrc/parse_options.cu', 'k2/csrc/log.cu', 'k2/csrc/fake_cuda.h', 'k2/csrc/log.h', 'k2/csrc/eval.h')


def out_type(t):
    return is_ptr(t) and not t.startswith('const ') and not t.endswith('**') and t not in ('void *', 'char *')


class Summary:
    """What the functions do with a pointer parameter."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.busy = set()
        self.undecided = []

    def walker(self, g, assume, track):
        w = Walker(self.prog, g, self)
        w.track = set(track)
        w.buffers = any(q['d'] in w.track and q['t'] in RAW for q in g.params)
        try:
            w.run(assume)
        except TooMany:
            self.undecided.append(g.name)
            return None
        return w

    def get(self, g, i, what):
        key = (id(g), i, what)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or g.body is None:
            return None
        self.busy.add(key)
        d = g.params[i].get('d')
        r = None
        if is_ptr(g.params[i]['t']):
            w = self.walker(g, [(('n', d), 0 if what == 'null' else 1)], [d])
            if w is not None:
                r = w
        self.busy.discard(key)
        self.memo[key] = r
        return r

    def null(self, g, i):
        w = self.get(g, i, 'null')
        return [] if w is None else [x for x in w.deref_null if x[0] == g.params[i]['d']]

    def needs(self, g, i):
        """A null argument is dereferenced on some path."""
        return bool(self.null(g, i))

    def sets(self, g, i):
        """The output is written on some path."""
        if g.body is None or not is_ptr(g.params[i]['t']):
            return True
        w = self.get(g, i, 'set')
        d = g.params[i]['d']
        return w is None or any(Walker.get(s, ('s', d)) for s, _ in w.rets)

    def whole(self, g, i):
        if g.body is None or not is_ptr(g.params[i]['t']):
            return False
        w = self.get(g, i, 'set')
        return w is not None and g.params[i]['d'] in (w.whole | w.elem)

    def inout(self, g, i):
        if g.body is None or not is_ptr(g.params[i]['t']):
            return False
        w = self.get(g, i, 'set')
        return w is not None and any(x == g.params[i]['d'] for x, _ in w.reads)


def tested(f, d):
    """Is parameter d compared with null in the body, other than in a check?"""
    def null_test(c):
        for n in walk(c):
            if n['k'] == 'bin' and n['op'] in ('==', '!='):
                a, b = strip(n['a']), strip(n['b'])
                if a and b and (a['k'] == 'null' and b.get('d') == d or b['k'] == 'null' and a.get('d') == d):
                    return True
            elif n['k'] in ('bool',) and strip(n['e']) and strip(n['e']).get('d') == d and strip(n['e'])['k'] == 'ref':
                return True
            elif n['k'] == 'un' and n['op'] == '!' and strip(n['e']) and strip(n['e']).get('d') == d and strip(n['e'])['k'] == 'ref':
                return True
        return False
    for n in walk(f.body):
        if n['k'] == 'cond' and fatal(n['f']):
            continue
        if n['k'] in ('if', 'cond', 'while') and null_test(n['c']):
            return True
    return False


def by_count(f, p):
    """An array of outputs whose number is given apart (num_x with x): null
    when there are none."""
    n = p['n']
    for a in ('_out', '_in'):
        if n.endswith(a):
            n = n[:-len(a)]
    ns = {'num_' + n, 'num_' + n + '_'}
    return any(q['n'] in ns for q in f.params) or any(x['k'] == 'mem' and x['n'] in ns for x in walk(f.body))


RAW = ('int *', 'float *', 'double *', 'unsigned int *', 'long *', 'unsigned long *', 'char *', 'unsigned char *', 'bool *', 'int8_t *', 'signed char *')


def norm(n):
    n = n.strip('_')
    for a in ('_out', '_data', '_ptr'):
        if n.endswith(a):
            n = n[:-len(a)]
    return n


def argname(a):
    a = strip(a)
    if a is None:
        return None
    if a['k'] == 'cond':
        return argname(a['t']) or argname(a['f'])
    if a['k'] == 'un' and a['op'] == '&':
        a = strip(a['e'])
    if a['k'] == 'ref' and a['dk'] in ('param', 'local'):
        return norm(a['n'])
    return None


def plain(f):
    n = f.name
    for a in ('k2::', 'k2host::'):
        if n.startswith(a):
            return n
    return n


def main(c):
    prog = Cxx((CORE, BIND, TORCHLIB))
    sm = Summary(prog)
    nf = 0
    insts = set((f.file, f.line) for f in prog.funcs if not f.dep and f.inst)
    for f in prog.funcs:
        if f.dep and (f.file, f.line) in insts:
            continue          # judged through its instantiations
        if f.body is None or f.file.endswith(SKIP_FILES):
            continue
        nf += 1
        decl = (f.d.get('decl') or {}).get('p', f.params)
        for i, p in enumerate(f.params):
            if not is_ptr(p['t']):
                continue
            inst = '%s(%s)' % (plain(f), p['n'])
            dv = p.get('v') or (decl[i].get('v') if i < len(decl) else None)
            opt = 'dflt' in p or 'dflt' in decl[i] or dv is not None and strip(dv) is not None and strip(dv)['k'] == 'null'
            if by_count(f, p):
                continue
            if opt or tested(f, p['d']):
                bads = sm.null(f, i)
                c.ob('optional-pointer', inst)
                for d, nm, n, how in bads:
                    c.bad('optional-pointer', inst, f.loc(n), '`%s` may be null here (%s) and is used: %s' % (p['n'], 'it is optional' if opt else 'it is compared with null elsewhere in the function', text(n)[:100] if how in ('*', '->', '[]', '&') else how))
            if not out_type(p['t']):
                continue
            w = sm.get(f, i, 'set')
            if w is None:
                continue
            d = p['d']
            if d not in w.whole or p['t'] in RAW and (d not in w.direct if not opt else False):
                continue
            if any(x == d for x, _ in w.reads):
                continue
            c.ob('output-set', inst)
            status = {}
            if f.ret == 'bool':
                for s, n in w.rets:
                    if n is not None and n.get('val') is not None:
                        status.setdefault(n['val'], []).append(Walker.get(s, ('s', d)) is not None)
            for s, n in w.rets:
                if Walker.get(s, ('s', d)) is not None:
                    continue
                if n is not None and n.get('val') in status and len(status) == 2 and not any(status[n['val']]):
                    continue       # the function reports that there is nothing to return
                c.bad('output-set', inst, f.loc(n) if n else f.loc(), 'returns without having set `%s`%s' % (p['n'], '' if n else ' (at the end of the function)'))
        # one object is not an array of objects
        for i, p in enumerate(f.params):
            if not out_type(p['t']) or p['t'] in RAW or by_count(f, p):
                continue
            one = many = None
            for n in walk(f.body):
                if n['k'] == 'un' and n['op'] == '*' and (strip(n['e']) or {}).get('d') == p['d'] or n['k'] in ('mem', 'call') and n.get('arrow') and (strip(n.get('o')) or {}).get('d') == p['d']:
                    one = one or n
                elif n['k'] == 'idx' and (strip(n['a']) or {}).get('d') == p['d'] and strip(n['i'])['k'] != 'int':
                    many = many or n
            if one is not None:
                c.ob('one-object', '%s(%s)' % (plain(f), p['n']))
                if many is not None:
                    c.bad('one-object', '%s(%s)' % (plain(f), p['n']), f.loc(many), '`%s` points to one object (line %d) but is used as an array of them: %s' % (p['n'], one['l'], text(many)))
        # outputs handed on: not into the place of another
        for n in walk(f.body):
            if n['k'] != 'call' or not n.get('f'):
                continue
            cs = [g for g in prog.by_name.get(n['f'], []) if len(g.params) == len(n['a'])]
            for g in cs[:1] if len(cs) == 1 else [x for x in cs if x.d.get('fd') == n.get('fd') and x.tu == f.tu][:1] or cs[:1]:
                names = [norm(q['n']) for q in g.params]
                for i, a in enumerate(n['a']):
                    if not out_type(g.params[i]['t']) or g.params[i]['t'] in ('void *',):
                        continue
                    nm = argname(a)
                    if nm is None:
                        continue
                    c.ob('own-place', '%s: %s to %s' % (plain(f), nm, shortname(g.name)))
                    if nm != names[i] and names.count(nm) == 1 and g.params[names.index(nm)]['t'] == g.params[i]['t'] and argname(n['a'][names.index(nm)]) not in (None, nm):
                        c.bad('own-place', '%s: %s to %s' % (plain(f), nm, shortname(g.name)), f.loc(n), '`%s` is handed to %s as its `%s`, whose `%s` receives something else' % (nm, shortname(g.name), g.params[i]['n'], g.params[names.index(nm)]['n']))
        # local pointers that may be null
        w = sm.walker(f, [], [])
        if w is None:
            continue
        ps = set(p['d'] for p in f.params)
        for d, nm, n, how in w.deref_null:
            if d in ps:
                continue
            inst = '%s:%s' % (plain(f), nm)
            c.bad('null-pointer', inst, f.loc(n), '`%s` may be null here and is used: %s' % (nm, text(n)[:100] if how in ('*', '->', '[]', '&') else how))
        for n in walk(f.body):
            if n['k'] == 'var' and is_ptr(n.get('t', '')) and n.get('i') is not None and any(m['k'] == 'null' for m in walk(n['i'])):
                c.ob('null-pointer', '%s:%s' % (plain(f), n['n']))
    c.floor('optional-pointer', 60)
    c.floor('output-set', 90)
    c.floor('own-place', 300)
    c.analysed['functions'] = nf
    c.analysed['units'] = len(prog.units)
    c.notes += ['too many paths: ' + x for x in sorted(set(sm.undecided))]


if __name__ == '__main__':
    harness.main('C12', 'path-sensitive nullness and must-be-set analysis of every pointer parameter of the native code (interprocedural through summaries)', main)
