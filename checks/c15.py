#!/usr/bin/env python3
"""C15: memory is alive for as long as it is used."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
from cxx import *
from cxxpath import strip, is_ptr
from cxxalias import Alias
from cxxlife import Life, block_locals
from c07 import Lam, bindings, plain_name

sys.setrecursionlimit(100000)


def registered(prog):
    """The classes whose objects Python holds."""
    out = {}
    for f in prog.funcs:
        if f.body is None or not f.file.startswith('k2/python/csrc/torch'):
            continue
        for n in walk(f.body):
            for t in (n.get('t'), *[v.get('t') for v in n.get('b', []) if n['k'] == 'decl']):
                m = isinstance(t, str) and re.search(r'pybind11::class_<([\w:]+(?:<[\w:]+>)?)', t)
                if m:
                    out.setdefault(m.group(1), (f, n['l']))
    return out


def parts(prog, names):
    """The records that live as long as objects of these classes."""
    todo, seen = list(names), {}
    for n in names:
        seen[n] = n
    while todo:
        r = todo.pop()
        rec = prog.records.get(r) or prog.records.get(r.split('<')[0])
        for x in rec['fields'] if rec else ():
            for m in re.findall(r'[\w:]+', x['t']):
                if m in prog.records and m not in seen and not m.startswith('k2::internal'):
                    seen[m] = seen[r]
                    todo.append(m)
    return seen


def main(c):
    prog = Cxx((CORE, BIND, TORCHLIB))
    A = Alias(prog)
    tot = dict(uses=0, blobs=0, sites=0, regions=0)

    def judge(w, inst, loc):
        w.run()
        w.region_rule()
        if w.uses or w.sites:
            c.ob('outlives', inst)
        if w.blobs or w.kept:
            c.ob('shared', inst)
        tot['uses'] += w.uses
        tot['blobs'] += w.blobs
        tot['sites'] += w.sites
        tot['regions'] += w.kept
        seen = set()
        for kind, n, t in w.out:
            rule = 'shared' if kind == 'shared' or 'tensor' in t else 'outlives'
            if (n['l'], t) in seen:
                continue
            seen.add((n['l'], t))
            c.bad(rule, inst, loc(n), t)

    for f in prog.funcs:
        if f.body is None or f.dep or f.file.startswith(('k2/torch/csrc/parse_options', 'k2/csrc/log.')):
            continue
        w = Life(A, f)
        w.ret_t = f.d.get('ret') or ''
        judge(w, plain_name(f), f.loc)
        for n, v, h, late in block_locals(f):
            c.ob('outlives', '%s:%s' % (plain_name(f), v['n']))
            if late is not None:
                c.bad('outlives', '%s:%s' % (plain_name(f), v['n']), f.loc(n), '`%s` keeps the address of `%s`, which ends with its block, and is used in line %s' % (h.get('n'), v['n'], late.get('l') or '?'))
        if f.file.startswith(('k2/python/csrc/', 'k2/torch/csrc/')):
            for name, l in bindings(f):
                g = Lam(f, l)
                w = Life(A, g)
                w.ret_t = l.get('ret') or ''
                judge(w, '%s.%s' % (shortname(f.name), name), g.loc)
    # what Python holds
    reg = registered(prog)
    inits = {}
    for f in prog.funcs:
        if f.d.get('ctor'):
            for i in f.d.get('inits') or []:
                inits.setdefault((plain_name(f).split('::')[0] and shortname(f.name), i.get('n')), (f, i))
    for r, holder in sorted(parts(prog, reg).items()):
        rec = prog.records.get(r)
        for x in rec['fields'] if rec else ():
            t = x['t']
            c.ob('kept-object', '%s.%s' % (r, x['n']))
            if t.endswith('&'):
                c.bad('kept-object', '%s.%s' % (r, x['n']), '%s:%d' % (rec.get('file', '?'), x['l']), 'objects of %s are held by Python (%s), but `%s` only refers to what the constructor was given' % (r, holder, x['n']))
            elif is_ptr(t) and Life.array_type(t.replace('const ', '').rstrip('* ').strip()):
                fi = inits.get((shortname(r), x['n']))
                if fi and any(n['k'] == 'ref' and any(p.get('d') == n['d'] for p in fi[0].params) for n in walk(fi[1].get('e') or fi[1].get('i'))):
                    c.bad('kept-object', '%s.%s' % (r, x['n']), fi[0].loc(fi[0].d), 'objects of %s are held by Python (%s), but `%s` only points to what the constructor was given' % (r, holder, x['n']))
    c.floor('outlives', 250)
    c.floor('shared', 10)
    c.floor('kept-object', 25)
    c.analysed.update({'allocations and arrays made': tot['sites'], 'uses of pointers into arrays made in the function': tot['uses'], 'tensors made around memory': tot['blobs'], 'regions made around memory': tot['regions'], 'classes held by Python': sorted(reg), 'units': len(prog.units)})


if __name__ == '__main__':
    harness.main('C15', 'flow-sensitive ownership analysis: storage that is used through pointers, references and views must still be held', main)
