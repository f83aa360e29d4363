#!/usr/bin/env python3
"""C01: operations leave the FSAs, tensors and lists they are given unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from alias import *
import harness

# documented in-place operations: (function, parameter) -> why.
ALLOWED = {
    ('k2.ops.index_add', 'in_out'): 'documented accumulator',
    ('k2.rnnt_loss.fix_for_boundary', 'px'): 'works in place on the px its callers have just built',
    ('k2.symbol_table.SymbolTable.add', 'self'): 'documented',
    ('k2.symbol_table.SymbolTable.__post_init__', 'self'): 'constructor',
    ('k2.mutual_information.MutualInformationRecursionFunction.forward', 'pxy_grads'): 'output list',
    ('k2.autograd._IntersectDensePrunedFunction.forward', 'out_fsa'): 'output list',
    ('k2.autograd._IntersectDenseFunction.forward', 'out_fsa'): 'output list',
    ('k2.dense_fsa_vec.DenseFsaVec.duration', 'self'): 'memo',
}
NOT_INLINED = {'k2.fsa.Fsa.properties', 'k2.fsa.Fsa.__setattr__', 'k2.fsa.Fsa.__getattr__', 'k2.fsa.Fsa.to_str',
               'k2.fsa.Fsa.__delattr__', 'k2.utils.to_dot'}


def allowed(q, fi, p):
    if (q, p) in ALLOWED:
        return True
    name = fi.node.name
    ps = fi.params()
    if fi.kind != 'func' and fi.kind != 'static' and ps and p == ps[0]:
        # methods whose contract is to change the object itself
        if name in ('__init__', '__setattr__', '__delattr__', '__post_init__', '__setitem__', '__setstate__'):
            return True
        if name.endswith('_') and not name.endswith('__'):
            return True
        if fi.kind == 'setter':
            return True
    if p == 'ctx':
        return True
    if name.endswith('_') and not name.endswith('__') and ps and p == ps[0]:
        return True
    return False


SHARE = ('.to', '.contiguous', '.detach', '.view', '.reshape', '.flatten', '.squeeze', '.float', '.int')


def copies(c, P, known):
    """A clone shares no tensor with its source, so that changing one in place leaves the other."""
    q = 'k2.fsa.Fsa.clone'
    it = analyze(P, q, known=known)
    me = param(P.funcs[q].params()[0])
    n = 0
    for e in it.events:
        if e.kind == 'setattr' and e.fn is not me:
            for _, v in alts(e.args[1]):
                while v.op == 'call' and callee(v) in SHARE:
                    v = v.args[0].args[0]
                if v.op == 'item' and v.args[0].op == 'elem' or v.op in ('attrdyn', 'getattr'):
                    src = {x.args[0].args[1] if x.args[0].op == 'attr' else show(x.args[0]) for x in subterms(v) if x.op == 'call'} | {x.args[1] for x in subterms(v) if x.op == 'attr'}
                    if not src & {'named_tensor_attr', '_tensor_attr'}:
                        continue
                    n += 1
                    c.bad('clone-shares-nothing', q + ':tensor attributes', e.loc, 'the clone holds the very tensors of its source: changing one in place changes the other')
                elif any(x.op == 'attr' and x.args[1] in ('named_tensor_attr', '_tensor_attr') for x in subterms(v)):
                    n += 1
                    c.ob('clone-shares-nothing', q + ':tensor attributes')
        if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'new' and e.res.args[0] == 'k2.fsa.Fsa' and e.res.args[1]:
            n += 1
            a = e.res.args[1][0]
            while a.op == 'call' and callee(a) in SHARE:
                a = a.args[0].args[0]
            c.check(not (a.op == 'attr' and a.args[0] is me), 'clone-shares-nothing', q + ':arcs', e.loc, 'the clone holds the very arcs of its source')
    if not n:
        c.notes.append('clone: built in a form that is not recognised')


def main(c):
    P = Program()
    known = load_known()
    n = 0
    for q in sorted(P.funcs):
        fi = P.funcs[q]
        if q not in known and (fi.node.name.startswith('_')):
            continue      # a private helper is judged through its callers
        it = analyze(P, q, known=known, inline=lambda x: x not in NOT_INLINED)
        n += len(it.events)
        effs = effects(P, it, fi)
        for p in fi.params():
            if not allowed(q, fi, p):
                c.ob('argument-unchanged', q + ':' + p)
        for p, e, what in effs:
            if allowed(q, fi, p):
                c.ob('documented-in-place', q + ':' + p)
                continue
            via = '' if len(e.stack) <= 1 else ' (called through %s)' % ' > '.join(x.split('.', 1)[1] for x in e.stack[1:])
            c.bad('argument-unchanged', q + ':' + p, e.loc, '%s, which belongs to the caller%s' % (what, via))
    copies(c, P, known)
    c.analysed['functions'] = len(P.funcs)
    c.analysed['events'] = n
    c.floor('argument-unchanged', 300)
    c.floor('documented-in-place', 5)
    c.assumptions += ['natives not listed in NATIVE_WRITES do not write through their arguments',
                      'tensor.to/contiguous/float and the like may return the tensor itself and are treated as aliases']


if __name__ == '__main__':
    harness.main('C01', 'interprocedural may-alias and in-place-effect analysis over every function of the package '
                 '(calls inlined), against the table of documented in-place operations', main)
