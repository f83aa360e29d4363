"""Provenance of values: which inputs, constants and native results a term is made of."""
from pyutil import *
from natargs import native_args


def path(t):
    """'fsa.arcs' for an attribute chain that starts at a parameter."""
    out = []
    while t.op == 'attr':
        out.append(t.args[1])
        t = t.args[0]
    if t.op == 'param':
        return '.'.join([t.args[0]] + out[::-1])
    return None


def native_result(t):
    i = ''
    while True:
        if t.op == 'item' and is_const(t.args[1]):
            i = '[%s]' % cval(t.args[1]) + i
            t = t.args[0]
        elif t.op == 'attr':
            i = '.' + t.args[1] + i
            t = t.args[0]
        else:
            break
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0].startswith('_k2.') and t.args[0].args[0] not in TRANSPARENT:
        return t.args[0].args[0] + i
    return None


# constructors that only wrap what they are given
TRANSPARENT = {'_k2.ragged.RaggedTensor', '_k2.fsa_from_tensor', '_k2.RaggedShape', '_k2.ragged.create_ragged_shape2'}


def leaves(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    t = strip(t)
    p = path(t)
    if p is not None:
        out.add(p)
        return out
    r = native_result(t)
    if r is not None:
        out.add(r)
        return out
    if t.op == 'phi':
        leaves(t.args[1], out, seen)
        leaves(t.args[2], out, seen)
        return out
    if t.op in ('glob', 'const', 'isinstance'):
        return out
    for a in t.args:
        walk(a, out, seen)
    return out


def walk(a, out, seen):
    if isinstance(a, T):
        leaves(a, out, seen)
    elif isinstance(a, tuple):
        for x in a:
            walk(x, out, seen)


def prov(t):
    s = strip(t)
    if is_const(s):
        return '=%r' % (cval(s),)
    p = path(s)
    if p is not None:
        return p
    r = native_result(s)
    if r is not None:
        return r
    return '{%s}' % ', '.join(sorted(leaves(s)))


def under_all(P, fi, it, extra=None):
    """(sigma, substitution, events alive under sigma) for every assignment of the boolean options.
    extra: {name: term} of further boolean terms."""
    ts = {k: param(k) for k in bool_params(fi)}
    ts.update(extra or {})
    for sig in assignments(list(ts)[:4]):
        m = {ts[k]: (TRUE if v else FALSE) for k, v in sig.items()}
        b = {ts[k]: v for k, v in sig.items()}
        ev = []
        for e in it.events:
            if all(truth_under(c, b) in (None, p) for c, p, k in e.pc):
                ev.append(e)
        yield sig, m, ev
