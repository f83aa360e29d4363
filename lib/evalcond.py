"""Three-valued evaluation of condition terms under concrete values of some terms."""
from terms import *

UNK = object()


class Vec(tuple):
    """Values of a tensor with one axis."""


def lift(f, *xs):
    if any(isinstance(x, Vec) for x in xs):
        n = [len(x) for x in xs if isinstance(x, Vec)][0]
        return Vec(f(*[x[i] if isinstance(x, Vec) else x for x in xs]) for i in range(n))
    return f(*xs)


def ev(t, m):
    """Python value of t when the terms in m have the given values; UNK if undetermined."""
    if t in m:
        return m[t]
    o, a = t.op, t.args
    if HOOK in m:
        v = m[HOOK](t, m)
        if v is not UNK:
            return v
    if SHAPES in m:
        v = shape_ev(t, m)
        if v is not UNK:
            return v
    if is_const(t):
        return cval(t)
    if o == 'not':
        v = ev(a[0], m)
        return UNK if v is UNK else lift(lambda x: not x, v)
    if o == 'and':
        r = True
        for x in a:
            v = ev(x, m)
            if v is UNK:
                r = UNK
            elif not v:
                return False
        return r
    if o == 'or':
        r = False
        for x in a:
            v = ev(x, m)
            if v is UNK:
                r = UNK
            elif v:
                return True
        return r
    if o == 'phi':
        c = ev(a[0], m)
        if c is UNK:
            x, y = ev(a[1], m), ev(a[2], m)
            return x if x is not UNK and y is not UNK and x == y else UNK
        return ev(a[1] if c else a[2], m)
    if o in ('eq', 'is', 'lt', 'le'):
        x, y = ev(a[0], m), ev(a[1], m)
        if x is UNK or y is UNK:
            return UNK
        try:
            return {'eq': lambda: x == y, 'is': lambda: x == y if isinstance(x, (bool, type(None))) or isinstance(y, (bool, type(None))) else UNK,
                    'lt': lambda: lift(lambda p, q: p < q, x, y), 'le': lambda: lift(lambda p, q: p <= q, x, y)}[o]()
        except TypeError:
            return UNK
    if o == 'in' and a[1].op in ('tuple', 'listv'):
        x = ev(a[0], m)
        ys = [ev(y, m) for y in a[1].args]
        if x is UNK or any(y is UNK for y in ys):
            return UNK
        return x in ys
    if o == 'op':
        vs = [ev(x, m) for x in a[1:]]
        if any(v is UNK for v in vs):
            if a[0] == 'BitAnd' and any(v is not UNK and v == 0 for v in vs):
                return 0
            return UNK
        f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y,
             'Mult': lambda x, y: x * y, 'BitXor': lambda x, y: x ^ y, 'Mod': lambda x, y: x % y, 'RShift': lambda x, y: x >> y,
             'LShift': lambda x, y: x << y, 'Invert': lambda x: ~x, 'USub': lambda x: -x, 'FloorDiv': lambda x, y: x // y}.get(a[0])
        if f is None:
            return UNK
        try:
            return lift(f, *vs)
        except Exception:
            return UNK
    if o == 'call' and a[0].op == 'glob' and a[0].args[0] in ('builtins.bool', 'builtins.int') and len(a[1]) == 1:
        v = ev(a[1][0], m)
        try:
            return UNK if v is UNK else (bool(v) if a[0].args[0].endswith('bool') else int(v))
        except (TypeError, ValueError):
            return UNK
    return UNK


HOOK = 'hook'           # m[HOOK](t, m): values of further terms
SHAPES = 'shapes'       # m[SHAPES] = {tensor term: shape}


def shape_ev(t, m):
    """Sizes of tensors whose shape is given, and items of known tuples."""
    sh, o, a = m[SHAPES], t.op, t.args
    if o == 'attr' and a[0] in sh:
        if a[1] == 'shape':
            return tuple(sh[a[0]])
        if a[1] == 'ndim':
            return len(sh[a[0]])
    if o == 'item':
        b, i = ev(a[0], m), ev(a[1], m)
        if isinstance(b, (tuple, list)) and isinstance(i, int) and not isinstance(i, bool):
            return b[i] if -len(b) <= i < len(b) else UNK
    if o in ('tuple', 'listv'):
        vs = [ev(x, m) for x in a]
        return UNK if any(v is UNK for v in vs) else tuple(vs)
    if o == 'call':
        f = a[0]
        if f.op == 'attr':
            if f.args[0] in sh:
                s = sh[f.args[0]]
                if f.args[1] in ('dim', 'ndimension'):
                    return len(s)
                if f.args[1] == 'size':
                    if not a[1]:
                        return tuple(s)
                    i = ev(a[1][0], m)
                    return s[i] if isinstance(i, int) else UNK
            if f.args[1] in ('all', 'any', 'item', 'max', 'min') and not a[1]:
                v = ev(f.args[0], m)
                if isinstance(v, Vec) and f.args[1] != 'item':
                    return {'all': all, 'any': any, 'max': max, 'min': min}[f.args[1]](v)
                return v      # tensors of one element
        if f.op == 'glob' and len(a[1]) == 1:
            if f.args[0] in ('torch.all', 'torch.any', 'builtins.all', 'builtins.any'):
                v = ev(a[1][0], m)
                if isinstance(v, Vec):
                    return {'all': all, 'any': any}[f.args[0].split('.')[-1]](v)
                return v
            if f.args[0] == 'builtins.len':
                v = ev(a[1][0], m)
                if isinstance(v, (tuple, list)):
                    return len(v)
                if a[1][0] in sh:
                    return sh[a[1][0]][0]
            if f.args[0] in ('builtins.tuple', 'builtins.list', 'torch.Size'):
                return ev(a[1][0], m)
    return UNK


def truth(t, m):
    v = ev(t, m)
    return UNK if v is UNK else bool(v)


def holds(pc, m, kinds=None):
    """Kleene conjunction of the literals of a path condition."""
    r = True
    for x in pc:
        if kinds is not None and x[2] not in kinds:
            continue
        if x[0].op == 'iter':
            continue
        v = truth(x[0], m)
        if v is UNK:
            r = UNK
        elif v != x[1]:
            return False
    return r
