#!/usr/bin/env python3
"""C10: native kernels and loops stay within their arrays."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
from cxx import *
from cxxalias import Alias
from cxxsize import Size
from c07 import Lam, bindings, plain_name

sys.setrecursionlimit(100000)


def main(c):
    prog = Cxx((CORE, BIND, TORCHLIB))
    A = Alias(prog)
    tot = dict(accesses=0, within=0, sometimes=0, unknown=0)

    def judge(w, inst, loc):
        w.run()
        for k, v in w.accesses.items():
            tot['accesses'] += 1
            if True in v or False in v:
                c.ob('bounds', inst)
                tot['within' if v == {True} else 'sometimes'] += 1
            else:
                tot['unknown'] += 1
        seen = set()
        for n, t in w.out.values():
            c.bad('bounds', inst, loc(n), t)
        for n, t in w.low:
            if (n['l'], t) not in seen:
                seen.add((n['l'], t))
                c.bad('axis', inst, loc(n), t)

    for f in prog.funcs:
        if f.body is None or f.dep or f.file.startswith(('k2/torch/csrc/parse_options', 'k2/csrc/log.')):
            continue
        judge(Size(prog, f, A), plain_name(f), f.loc)
        if f.file.startswith(('k2/python/csrc/', 'k2/torch/csrc/')):
            for name, l in bindings(f):
                g = Lam(f, l)
                judge(Size(prog, g, A), '%s.%s' % (shortname(f.name), name), g.loc)
    c.floor('bounds', 200)
    c.analysed.update({'indexed accesses of arrays of known size': tot['accesses'],
                       'decided to be within, for every input': tot['within'],
                       'decided for some instantiations or paths': tot['sometimes'],
                       'depending on data (not decided)': tot['unknown']})


if __name__ == '__main__':
    harness.main('C10', 'symbolic sizes of arrays and ranges of indexes: no loop or kernel index runs past the elements, and an index over one axis is not used over another', main)
