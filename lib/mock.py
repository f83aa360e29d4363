"""Abstract argument values: path conditions evaluated on descriptions of arguments.

A description gives the kind, sizes, element type, device and attributes of an
argument; the terms of the analysed function are evaluated on it with three
values (true, false, unknown).  Nothing of the repository is run.
"""
from terms import *
from evalcond import UNK, HOOK, Vec, ev, truth, holds

TENSOR, RAGGED = 'torch.Tensor', '_k2.ragged.RaggedTensor'


class Obj:
    def __init__(self, types, attrs=None, meth=None, items=None):
        self.types, self.attrs, self.meth, self.items = tuple(types), dict(attrs or {}), dict(meth or {}), items

    def but(self, **kw):
        """A copy with other attributes."""
        o = Obj(self.types, self.attrs, self.meth, self.items)
        for k, v in kw.items():
            if v is None and k in o.attrs and k.endswith('_gone'):
                continue
            o.attrs[k] = v
        return o

    def without(self, *names):
        o = Obj(self.types, self.attrs, self.meth, self.items)
        for n in names:
            o.attrs.pop(n, None)
        return o


class Ref:
    """A value known by name only (dtype, device kind)."""


def device(kind='cpu'):
    return Obj(['torch.device'], dict(type=kind), {})


def tensor(shape, dtype='torch.float32', dev='cpu', rows=None, **kw):
    n = 1
    for x in shape:
        n *= x
    d = dict(shape=tuple(shape), ndim=len(shape), dtype=dtype, device=DEV[dev], is_cuda=dev == 'cuda', requires_grad=kw.get('requires_grad', False),
             is_sparse=kw.get('is_sparse', False))
    m = {'dim': len(shape), 'numel': n, 'size': lambda i=None: tuple(shape) if i is None else shape[i], 'tolist': rows, 'is_coalesced': kw.get('coalesced', True),
         'nelement': n, 'ndimension': len(shape), 'stride': lambda i=None: UNK, 'is_contiguous': UNK}
    for k in ('min', 'max'):
        if k in kw:
            m[k] = kw[k]
    return Obj([TENSOR], d, m, rows)


def ragged(num_axes=2, dtype='torch.int32', dim0=4, dev='cpu', sizes=None):
    return Obj([RAGGED], dict(num_axes=num_axes, dtype=dtype, dim0=dim0, device=DEV[dev]), {'tot_size': lambda i: dim0 if i == 0 else (sizes or {}).get(i, UNK)})


def shape(num_axes=2, sizes=None, dim0=4):
    return Obj(['_k2.ragged.RaggedShape'], dict(num_axes=num_axes, dim0=dim0), {'tot_size': lambda i: dim0 if i == 0 else (sizes or {}).get(i, UNK)})


DEV = {'cpu': device('cpu'), 'cuda': device('cuda'), 'meta': device('meta')}


def fsa(vec=True, attrs=None, props=0xffff, dev='cpu', dim0=2, arcs=4, requires_grad=False, **kw):
    """An FSA: attrs maps attribute names to descriptions."""
    attrs = dict(attrs or {})
    sh = (dim0, None, None) if vec else (dim0, None)
    d = dict(shape=sh, properties=props, device=DEV[dev], requires_grad=requires_grad, num_arcs=arcs, grad=None,
             scores=tensor((arcs,), dev=dev), labels=tensor((arcs,), 'torch.int32', dev, **{k: v for k, v in kw.items() if k in ('min', 'max')}),
             arcs=Obj(['_k2.RaggedArc'], {}, {'num_axes': len(sh), 'dim0': dim0, 'values': tensor((arcs, 4), 'torch.int32', dev)}),
             _tensor_attr={k: v for k, v in attrs.items() if isinstance(v, Obj)}, _non_tensor_attr={k: v for k, v in attrs.items() if not isinstance(v, Obj)},
             _cache={}, __dict__={'arcs': 1, '_tensor_attr': 1, '_non_tensor_attr': 1, '_cache': 1, '_properties': 1})
    d.update(attrs)
    return Obj(['k2.fsa.Fsa'], d, {'is_cpu': dev == 'cpu', 'is_cuda': dev == 'cuda', 'dim0': dim0,
                                   'named_tensor_attr': [(k, v) for k, v in attrs.items() if isinstance(v, Obj)],
                                   'named_non_tensor_attr': [(k, v) for k, v in attrs.items() if not isinstance(v, Obj)],
                                   'get_filler': 0})


ARC_ATTRS = ('aux_labels', 'x', 'phones', 'tokens', 'lm_scores')      # attributes some FSAs carry
MISSING = Obj(['missing'])


class World:
    def __init__(self, args, pick=0, extra=None):
        self.args, self.pick, self.extra = args, pick, extra or {}
        self.memo = {}

    def model(self):
        m = {HOOK: self.hook}
        return m

    def hook(self, t, m):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = UNK          # recursion guard
        v = self.hook1(t, m)
        self.memo[t] = v
        return v

    def hook1(self, t, m):
        o, a = t.op, t.args
        if t in self.extra:
            return self.extra[t]
        if o == 'in' and a[1].op == 'newdict':
            return False            # a dict that the function itself builds: the first time round nothing is in it
        if o == 'param':
            return self.args.get(a[0], UNK)
        if o == 'glob':
            n = a[0]
            if n.startswith('torch.') and n.split('.')[-1] in ('int32', 'float32', 'float64', 'int64', 'int', 'float', 'double', 'long', 'bool', 'int16', 'float16'):
                return 'torch.' + {'int': 'int32', 'float': 'float32', 'double': 'float64', 'long': 'int64'}.get(n.split('.')[-1], n.split('.')[-1])
            if n in self.extra:
                return self.extra[n]
            return UNK
        if o == 'attr':
            if a[0].op == 'glob' and show(t) in self.extra:
                return self.extra[show(t)]
            b = ev(a[0], m)
            if isinstance(b, Obj):
                if a[1] in b.attrs:
                    return b.attrs[a[1]]
                if b.types[0] == 'k2.fsa.Fsa' and a[1] in ARC_ATTRS:
                    return MISSING
            return UNK
        if o == 'attrdyn' or o == 'getattr':
            b, n = ev(a[0], m), ev(a[1], m)
            if isinstance(b, Obj) and isinstance(n, str):
                if n in b.attrs:
                    return b.attrs[n]
                if o == 'getattr' and len(a) > 2 and b.types[0] in ('k2.fsa.Fsa',):
                    return ev(a[2], m)
            return UNK
        if o == 'hasattr':
            b, n = ev(a[0], m), ev(a[1], m)
            if isinstance(b, Obj) and isinstance(n, str):
                return n in b.attrs or n in b.meth
            return UNK
        if o == 'isinstance':
            b = ev(a[0], m)
            c = a[1]
            c = c.args[0] if isinstance(c, T) and c.op in ('glob', 'const') else c
            if b is UNK or not isinstance(c, str):
                return UNK
            if isinstance(b, Obj):
                return c in b.types
            py = {'builtins.int': int, 'builtins.str': str, 'builtins.list': list, 'builtins.tuple': tuple, 'builtins.float': float, 'builtins.dict': dict}
            if c in py:
                return isinstance(b, py[c]) and not (isinstance(b, Vec))
            return False
        if o == 'is':
            x, y = ev(a[0], m), ev(a[1], m)
            if x is UNK or y is UNK:
                return UNK
            if x is None or y is None:
                return x is y
            return UNK
        if o == 'eq':
            x, y = ev(a[0], m), ev(a[1], m)
            if isinstance(x, Obj) or isinstance(y, Obj):
                if isinstance(x, Obj) and isinstance(y, Obj) and x.types == y.types == ('torch.device',):
                    return x.attrs['type'] == y.attrs['type']
                if x is None or y is None or isinstance(x, (int, str, tuple)) or isinstance(y, (int, str, tuple)):
                    return False
                return UNK
            return UNK
        if o == 'elem':
            b = ev(a[0], m)
            if isinstance(b, (list, tuple)) and not isinstance(b, Vec) and b:
                return b[min(self.pick, len(b) - 1)]
            if isinstance(b, dict) and b:
                return list(b)[min(self.pick, len(b) - 1)]
            return UNK
        if o == 'in':
            x, y = ev(a[0], m), ev(a[1], m)
            if x is UNK or y is UNK or isinstance(y, Obj):
                return UNK
            try:
                return x in y
            except TypeError:
                return UNK
        if o == 'item':
            b, i = ev(a[0], m), ev(a[1], m)
            if isinstance(b, (list, tuple, str)) and isinstance(i, int) and not isinstance(i, bool):
                return b[i] if -len(b) <= i < len(b) else UNK
            if isinstance(b, dict) and not isinstance(i, (Obj, list)) and i is not UNK:
                return b.get(i, UNK)
            return UNK
        if o == 'tuple':
            xs = [ev(x, m) for x in a]
            return UNK if any(x is UNK for x in xs) else tuple(xs)
        if o == 'newlist' or o == 'listv':
            return UNK
        if o == 'call':
            f, args = a[0], a[1]
            n = f.args[1] if f.op == 'attr' else f.args[0].split('.')[-1] if f.op == 'glob' and f.args[0].startswith(('torch.', 'builtins.')) else ''
            if n in ('all', 'any', 'min', 'max', 'amin', 'amax', 'ge', 'gt', 'le', 'lt', 'eq', 'ne') and not a[2]:
                xs = ([ev(f.args[0], m)] if f.op == 'attr' else []) + [ev(x, m) for x in args]
                if xs and isinstance(xs[0], Vec):
                    if len(xs) == 1:
                        return {'all': all, 'any': any}.get(n, min if n.endswith('min') else max)(xs[0])
                    if len(xs) == 2 and isinstance(xs[1], (int, float)) and n[1:] in ('e', 't', 'q'):
                        y = xs[1]
                        return Vec({'ge': x >= y, 'gt': x > y, 'le': x <= y, 'lt': x < y, 'eq': x == y, 'ne': x != y}[n] for x in xs[0])
                    return UNK
            if f.op == 'attr':
                b = ev(f.args[0], m)
                n = f.args[1]
                if isinstance(b, Vec) and n in ('item', 'contiguous', 'flatten', 'clone', 'view', 'reshape', 'tolist'):
                    return b
                if isinstance(b, Obj):
                    if n in b.meth:
                        v = b.meth[n]
                        if callable(v):
                            xs = [ev(x, m) for x in args]
                            return UNK if any(x is UNK for x in xs) else v(*xs)
                        return UNK if v is None else v
                    return UNK
                if isinstance(b, dict) and not args:
                    if n == 'items':
                        return list(b.items())
                    if n == 'keys':
                        return list(b)
                    if n == 'values':
                        return list(b.values())
                if isinstance(b, dict) and n == 'get' and args:
                    k = ev(args[0], m)
                    if k is not UNK:
                        return b[k] if k in b else ev(args[1], m) if len(args) > 1 else None
                if isinstance(b, str) and n in ('split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'splitlines'):
                    xs = [ev(x, m) for x in args]
                    if any(x is UNK for x in xs):
                        return UNK
                    return getattr(b, n)(*xs)
                return UNK
            if f.op == 'glob':
                n = f.args[0]
                xs = [ev(x, m) for x in args]
                if n == 'torch.device' and len(xs) == 1 and isinstance(xs[0], str):
                    return device(xs[0].split(':')[0])
                if any(x is UNK for x in xs):
                    return UNK
                if n == 'builtins.len' and isinstance(xs[0], (list, tuple, str, dict)):
                    return len(xs[0])
                if n == 'builtins.range' and len(xs) == 1 and isinstance(xs[0], int):
                    return list(range(xs[0]))
                if n in ('builtins.list', 'builtins.tuple') and len(xs) == 1 and isinstance(xs[0], (list, tuple, dict)):
                    return list(xs[0])
                if n == 'builtins.set' and len(xs) == 1 and isinstance(xs[0], (list, tuple, dict)):
                    return list(xs[0])
                if n == 'builtins.int' and len(xs) == 1 and isinstance(xs[0], (int, str, float)):
                    try:
                        return int(xs[0])
                    except ValueError:
                        return UNK
                if n == 'os.path.splitext' and isinstance(xs[0], str):
                    import os
                    return os.path.splitext(xs[0])
                if n in ('builtins.max', 'builtins.min') and all(isinstance(x, (int, float)) for x in xs) and len(xs) > 1:
                    return (max if n.endswith('max') else min)(xs)
                if n in ('builtins.zip', 'builtins.enumerate'):
                    if n.endswith('zip') and all(isinstance(x, (list, tuple)) for x in xs):
                        return list(zip(*xs))
                    if n.endswith('enumerate') and isinstance(xs[0], (list, tuple)):
                        return list(enumerate(xs[0]))
            return UNK
        return UNK
