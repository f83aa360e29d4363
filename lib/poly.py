"""Polynomial normal form of arithmetic terms: what is computed, not how it is written."""
from fractions import Fraction
from terms import *

SHAPE_METHODS = {'reshape', 'view', 'expand', 'expand_as', 'unsqueeze', 'squeeze', 'contiguous', 'clone', 'to', 'type_as', 'detach', 'float', 'double', 'long', 'int',
                 'type', 'flatten', 'cpu', 'cuda', 'half'}
SHAPE_FUNCS = {'torch.tensor', 'torch.as_tensor', 'torch.reshape', 'torch.unsqueeze', 'torch.squeeze', 'builtins.float', 'builtins.int', 'torch.clone'}
ARITH = {'torch.add': 'Add', 'torch.sub': 'Sub', 'torch.mul': 'Mult', 'torch.div': 'Div', 'torch.neg': 'USub', '.add': 'Add', '.sub': 'Sub', '.mul': 'Mult', '.div': 'Div', '.neg': 'USub',
         '.add_': 'Add', '.sub_': 'Sub', '.mul_': 'Mult', '.div_': 'Div', 'torch.negative': 'USub', '.negative': 'USub', 'torch.true_divide': 'Div'}


def unshape(t, keep=()):
    while True:
        if t.op == 'call':
            f = t.args[0]
            if f.op == 'attr' and f.args[1] in SHAPE_METHODS and f.args[1] not in keep:
                t = f.args[0]
                continue
            if f.op == 'glob' and f.args[0] in SHAPE_FUNCS and t.args[1]:
                t = t.args[1][0]
                continue
        if t.op == 'item':
            # x[:, :, None] only adds axes
            i = t.args[1]
            xs = i.args if i.op == 'tuple' else (i,)
            if xs and all(isinstance(x, T) and (is_const(x) and (cval(x) is None or cval(x) is Ellipsis) or full_slice(x)) for x in xs):
                t = t.args[0]
                continue
        return t


def full_slice(x):
    return x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].endswith('slice') and all(is_const(a) and cval(a) is None for a in x.args[1]) or \
        x.op == 'slice' and all(isinstance(a, T) and is_const(a) and cval(a) is None for a in x.args)


def fn_name(t):
    f = t.args[0]
    if f.op == 'glob':
        return f.args[0]
    if f.op == 'attr':
        return '.' + f.args[1]
    return None


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n))
            r[x] = r.get(x, 0) + c * d
            if r[x] == 0:
                del r[x]
    return r


def atom(s):
    return {(s,): Fraction(1)}


def num(v):
    v = Fraction(v)
    return {(): v} if v else {}


def poly(t, canon=None, memo=None):
    """canon(t): name of an atom, or None to use its printed form."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = poly1(t, canon, memo)
    memo[t] = r
    return r


def poly1(t, canon, memo):
    t = unshape(t)
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool):
            return atom(repr(v))
        if isinstance(v, (int, float)):
            if v != v or v in (float('inf'), float('-inf')):
                return atom(repr(v))
            return num(v)
    if canon is not None:
        s = canon(t)
        if s is not None:
            return atom(s)
    op, args = None, None
    if t.op == 'op':
        op, args = t.args[0], list(t.args[1:])
    elif t.op == 'call':
        n = fn_name(t)
        if n in ARITH and not dict(t.args[2]):
            op = ARITH[n]
            args = ([t.args[0].args[0]] if n[0] == '.' else []) + list(t.args[1])
    if op == 'Add' and len(args) == 2:
        return add(poly(args[0], canon, memo), poly(args[1], canon, memo))
    if op == 'Sub' and len(args) == 2:
        return add(poly(args[0], canon, memo), poly(args[1], canon, memo), -1)
    if op == 'USub' and len(args) == 1:
        return mul(num(-1), poly(args[0], canon, memo))
    if op == 'UAdd' and len(args) == 1:
        return poly(args[0], canon, memo)
    if op == 'Mult' and len(args) == 2:
        return mul(poly(args[0], canon, memo), poly(args[1], canon, memo))
    if op == 'Div' and len(args) == 2:
        d = poly(args[1], canon, memo)
        if len(d) == 1:
            (m, c), = d.items()
            inv = {tuple(sorted('1/' + x if not x.startswith('1/') else x[2:] for x in m)): 1 / c}
            return mul(poly(args[0], canon, memo), inv)
        return mul(poly(args[0], canon, memo), atom('1/(%s)' % show_poly(d)))
    return atom(show(t))


def show_poly(p):
    return ' + '.join('%s*%s' % (c, '*'.join(m) or '1') for m, c in sorted(p.items())) or '0'
