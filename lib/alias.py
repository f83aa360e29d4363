"""May-alias of storage and in-place effects over Python value terms."""
from pyutil import *

VIEW_METHODS = {'view', 'reshape', 't', 'transpose', 'permute', 'squeeze', 'unsqueeze', 'expand', 'narrow',
                'contiguous', 'to', 'detach', 'values', 'flatten', 'float', 'int', 'long', 'double', 'half', 'cpu',
                'cuda', 'type', 'type_as', 'as_strided', 'select', 'unbind', 'split', 'chunk', 'numpy', 'expand_as',
                'view_as', 'diagonal', 'ravel', 'get', 'pop', 'setdefault', 'popitem',
                '__getitem__', 'get_layer', 'movedim', 'swapaxes', 'swapdims', 'unflatten', 'real', 'requires_grad_'}
VIEW_FUNCS = {'torch.reshape', 'torch.transpose', 'torch.permute', 'torch.squeeze', 'torch.unsqueeze', 'torch.as_strided',
              'torch.flatten', 'torch.narrow', 'torch.split', 'torch.chunk', 'torch.unbind', 'torch.t', 'torch.from_numpy',
              'torch.as_tensor', 'torch.detach', 'torch.ravel', 'torch.broadcast_to', 'torch.select', 'torch.movedim',
              'torch.swapaxes', 'torch.atleast_1d', 'torch.atleast_2d', 'torch.diagonal', 'torch.broadcast_tensors',
              '_k2.as_float', '_k2.as_int', '_k2.fsa_from_tensor', '_k2.fsa_to_tensor',
              'builtins.iter', 'builtins.next', 'builtins.getattr'}
# fresh containers whose elements are those of their arguments
COPY_FUNCS = {'builtins.list', 'builtins.tuple', 'builtins.zip', 'builtins.enumerate', 'builtins.reversed', 'builtins.sorted',
              'builtins.map', 'builtins.filter', 'builtins.set', 'builtins.dict', 'builtins.frozenset', 'copy.copy', 'itertools.chain'}
COPY_METHODS = {'copy', 'items', 'keys', 'named_tensor_attr', 'named_non_tensor_attr'}
# natives which write through an argument: name -> positions (and keyword names)
NATIVE_WRITES = {'_k2.index_add': ((2, 'in_out'),),
                 '_k2.fix_final_labels': ((0, 'fsas'), (1, 'labels')),
                 '_k2.mutual_information_forward': ((3, 'p'),),
                 '_k2.mutual_information_backward': ((4, 'ans_grad'),),
                 '_k2.backprop_get_arc_post_float': ((2, 'arc_post_deriv'),),
                 '_k2.backprop_get_arc_post_double': ((2, 'arc_post_deriv'),)}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'clear', 'update', 'pop', 'popitem', 'setdefault', 'sort', 'reverse', 'add', 'discard'}
SCALARS = {'int', 'float', 'bool', 'str', 'Optional[int]', 'Optional[float]', 'Optional[str]', 'Optional[bool]'}


def is_view_index(i):
    if i.op in ('slice', 'const', 'ellipsis', 'elem', 'index'):
        return True
    if i.op == 'tuple':
        return all(is_view_index(x) for x in i.args)
    return None


def aliases(t, memo=None):
    """Base objects (params, and attributes reached from them collapse to the
    param) whose storage t may share."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    memo[t] = frozenset()
    o, a = t.op, t.args
    r = frozenset()
    if o == 'param':
        r = frozenset([a[0]])
    elif o == 'attr':
        r = aliases(a[0], memo)
    elif o in ('item',):
        # advanced (tensor) indexing copies; anything else may be a view or an element
        idx = a[1]
        if not (idx.op in ('eq', 'lt', 'not', 'and', 'or') or (idx.op == 'call')):
            r = inner(a[0], memo)
    elif o in ('elem', 'rest', 'iter', 'star'):
        r = inner(a[0], memo)
    elif o == 'phi':
        r = aliases(a[1], memo) | aliases(a[2], memo)
    elif o in ('oneof', 'or', 'and'):
        for x in a:
            r |= aliases(x, memo)
    elif o == 'loopval':
        r = aliases(a[1], memo) | aliases(a[2], memo)
    elif o == 'mu':
        r = aliases(a[1], memo)
    elif o in ('getattr', 'attrdyn'):
        r = aliases(a[0], memo)
    elif o == 'comp':
        r = frozenset()
    elif o == 'call':
        n = callee(t)
        if n.startswith('.'):
            if n[1:] in VIEW_METHODS or (n.endswith('_') and not n.endswith('__')):
                r = aliases(a[0].args[0], memo)
        elif n in VIEW_FUNCS:
            for x in a[1]:
                r |= aliases(x, memo)
    elif o == 'new' and a[0] == 'k2.fsa.Fsa':
        # an Fsa built over given arcs shares them (only its arcs)
        r = frozenset()
    memo[t] = r
    return r


def inner(t, memo):
    """What an element of t may share storage with."""
    r = aliases(t, memo)
    o, a = t.op, t.args
    if o in ('tuple', 'listv'):
        for x in a:
            r |= aliases(x, memo) | inner(x, memo)
    elif o == 'gen':
        for x in a[1]:
            r |= aliases(x, memo) | inner(x, memo)
    elif o == 'comp' and isinstance(a[1], T):
        r |= aliases(a[1], memo) | inner(a[1], memo)
    elif o == 'call':
        n = callee(t)
        if n in COPY_FUNCS:
            for x in a[1]:
                r |= inner(x, memo)
        elif n.startswith('.') and n[1:] in COPY_METHODS:
            r |= inner(a[0].args[0], memo)
    elif o in ('elem', 'item') and t.op != 'param':
        # elements of elements (zip, enumerate, items)
        r |= inner(a[0], memo)
    elif o == 'phi':
        r |= inner(a[1], memo) | inner(a[2], memo)
    return r


def path(t):
    """Readable access path of the object written."""
    return show(t)[:100]


def arcs_alias(t):
    """Params whose arcs storage is shared by the Fsa denoted by t."""
    if t.op == 'new' and t.args[0] == 'k2.fsa.Fsa':
        xs = list(t.args[1][:1]) + [v for k, v in t.args[2] if k == 'arcs']
        r = frozenset()
        for x in xs:
            r |= aliases(x)
        return r
    if t.op == 'phi':
        return arcs_alias(t.args[1]) | arcs_alias(t.args[2])
    return frozenset()


def effects(P, it, fi):
    """Yield (param, event, what) for every in-place effect of fi's analysis
    on storage reachable from one of its parameters."""
    scal = set()
    a = fi.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and ast.unparse(x.annotation) in SCALARS:
            scal.add(x.arg)
    out = []

    def hit(bases, e, what):
        for b in sorted(bases):
            if b not in scal:
                out.append((b, e, what))
    for e in it.events:
        if e.kind == 'setattr':
            nm = cval(e.args[0]) if is_const(e.args[0]) else None
            if e.extra == 'raw' or nm in ('_properties', 'labels_version', '_duration', '_cache'):
                continue
            hit(aliases(e.fn), e, 'attribute %s of %s is assigned' % (nm if nm else show(e.args[0]), path(e.fn)))
            if nm in ('scores', 'labels'):
                hit(arcs_alias(e.fn), e, 'attribute %s of an FSA sharing arcs is assigned' % nm)
        elif e.kind == 'delattr':
            hit(aliases(e.fn), e, 'attribute %s of %s is deleted' % (show(e.args[0]), path(e.fn)))
        elif e.kind in ('setitem', 'delitem'):
            if any(x.op == 'attr' and x.args[1] == '_cache' for x in [e.fn]):
                continue
            hit(aliases(e.fn), e, 'an element of %s is %s' % (path(e.fn), 'written' if e.kind == 'setitem' else 'deleted'))
        elif e.kind == 'inplace':
            tgt = e.args[0]
            # x += y rebinds immutable values; tensors and lists are changed
            if tgt.op in ('const', 'fstr') or tgt.op == 'op' or (tgt.op == 'call' and callee(tgt) in ('builtins.int', 'builtins.str', 'builtins.len', 'builtins.float')):
                continue
            if tgt.op in ('attr',) and tgt.args[1] in ('shape', 'ndim', 'dim0', 'num_arcs'):
                continue
            if tgt.op == 'item' and tgt.args[0].op == 'attr' and tgt.args[0].args[1] == 'shape':
                continue
            hit(aliases(tgt), e, '%s is changed in place' % path(tgt))
        elif e.kind == 'call':
            f = e.fn
            if f.op == 'attr':
                m = f.args[1]
                if m.endswith('_') and not m.endswith('__') and m != 'requires_grad_' and m != '_':
                    hit(aliases(f.args[0]), e, '%s() is applied to %s' % (m, path(f.args[0])))
                elif m in MUTATORS and f.args[0].op != 'super':
                    b = f.args[0]
                    if b.op == 'attr' and b.args[1] in ('_cache',):
                        continue
                    hit(aliases(b), e, '%s() is applied to %s' % (m, path(b)))
            elif f.op == 'glob':
                n = f.args[0]
                for i, k in NATIVE_WRITES.get(n, ()):
                    v = arg(e, i, k)
                    if v is not None and not is_const(v):
                        hit(aliases(v), e, '%s writes into %s' % (n, path(v)))
                if n.startswith('torch.') and n.endswith('_') and not n.endswith('__') and e.args:
                    hit(aliases(e.args[0]), e, '%s writes into %s' % (n, path(e.args[0])))
                v = e.kw.get('out')
                if v is not None and not is_const(v):
                    hit(aliases(v), e, '%s writes into %s' % (n, path(v)))
    return out
