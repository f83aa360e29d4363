"""Rows (computation, slot -> provenance) a public function reaches, per assignment of its boolean options."""
from prov import *
import c02

# plumbing: selects, wraps or converts data; says nothing about options
PLUMBING = {'_k2.index_select', '_k2.index_add', '_k2.as_float', '_k2.as_int', '_k2.fsa_from_tensor', '_k2.fsa_to_tensor', '_k2.fix_final_labels',
            '_k2.get_fsa_basic_properties', '_k2.get_fsa_vec_basic_properties', '_k2.fsa_properties_as_str', '_k2.simple_ragged_index_select',
            '_k2.is_rand_equivalent', '_k2.ragged.index', '_k2.ragged.index_and_sum', '_k2.create_fsa_vec', '_k2.cat'}
OPTION_ANN = ('int', 'float', 'bool', 'str', 'Optional[int]', 'Optional[float]', 'Optional[bool]', 'Optional[str]', "Literal['none', 'mean', 'sum']")
GETTERS = ('get_tot_scores', 'get_forward_scores', 'get_backward_scores', 'get_arc_post', '_get_tot_scores', '_get_forward_scores',
           '_get_backward_scores', '_get_arc_post', '_get_arc_cdf', '_get_entering_arcs')


def public(q):
    parts = q.split('.')
    return not any(p.startswith('_') and p not in ('__init__', '__call__', '__getitem__') for p in parts[1:])


def option_params(fi):
    a = fi.node.args
    out = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and ast.unparse(x.annotation) in OPTION_ANN or x.arg in ('reduction', 'device', 'topo'):
            out[x.arg] = True
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float, str)):
            out[x.arg] = True
    return out


def defaults(fi):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[x.arg] = ast.unparse(d)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[x.arg] = ast.unparse(d)
    return out


def is_option_leaf(p, opts):
    h = p.split('.')[0]
    return p in opts or (h == 'self' and p.count('.') == 1)


def held(P, cls, known, _memo={}):
    """{attribute: constructor parameter it holds} of a class."""
    q = cls.qual if hasattr(cls, 'qual') else None
    if q is None or q + '.__init__' not in P.funcs:
        return {}
    k = (id(P), q)
    if k not in _memo:
        fi = P.funcs[q + '.__init__']
        out = {}
        for e in analyze(P, q + '.__init__', known=known, inline=c02.inlined).events:
            if e.kind == 'setattr' and e.fn is param(fi.params()[0]) and is_const(e.args[0]):
                p = path(strip(e.args[1]))
                if p in fi.params():
                    out[cval(e.args[0])] = p
        _memo[k] = out
    return _memo[k]


def canon(p, own):
    """self.X -> self:P when the constructor puts its parameter P there."""
    h = p.split('.')
    if h[0] == 'self' and len(h) > 1 and h[1] in own:
        return '.'.join(['self:' + own[h[1]]] + h[2:])
    return p


def slot_prov(t, opts, own):
    """What a slot is: a constant, exactly one input, or the set of options it is made of."""
    s = strip(t)
    if is_const(s):
        v = cval(s)
        return '=%r' % (float(v) if isinstance(v, int) and not isinstance(v, bool) else v,)
    p = path(s)
    if p is not None:
        return canon(p, own)
    r = native_result(s)
    if r is not None:
        return '*'
    ls = sorted(x for x in (canon(x, own) for x in leaves(s)) if x in opts)
    return '{%s}' % ','.join(ls)


def rows(P, q, known, it=None):
    fi = P.funcs[q]
    if it is None:
        it = analyze(P, q, known=known, inline=c02.inlined)
    opts = set(option_params(fi))
    own, extra = {}, {}
    if fi.cls is not None and fi.node.name != '__init__':
        own = held(P, fi.cls, known)
        init = P.funcs.get(fi.cls.qual + '.__init__')
        if init is not None:
            opts |= {'self:' + p for p in option_params(init)}
            bs = bool_params(init)
            extra = {'self:' + p: attr(param(fi.params()[0]), x) for x, p in own.items() if p in bs}
    out = {}
    for sig, m, evs in under_all(P, fi, it, extra):
        rs = set()
        for e in evs:
            if e.kind == 'setattr' and is_const(e.args[0]) and isinstance(e.fn, T):
                w = None
                if fi.node.name == '__init__' and e.fn is param(fi.params()[0]):
                    w = 'self'
                elif e.fn.op == 'new' and e.fn.args[0] != 'k2.fsa.Fsa' and e.fn.args[0] in P.classes:
                    w = e.fn.args[0].split('.')[-1]
                p = path(strip(e.args[1]))
                if w and p in opts:
                    rs.add('%s holds(value=%s)' % (w, p))
            if e.kind != 'call' or not isinstance(e.fn, T):
                continue
            f0 = assume(subst(e.fn, m), m)
            args = [assume(subst(x, m), m) for x in e.args]
            kw = {k: assume(subst(x, m), m) for k, x in dict(e.kw).items()}
            for _, f in alts(f0):
                name, a = None, None
                if f.op == 'glob' and f.args[0].startswith('_k2.') and f.args[0] not in PLUMBING and f.args[0] not in TRANSPARENT and \
                        not f.args[0].startswith('_k2.ragged'):
                    name = f.args[0]
                    a = native_args(name, args, kw)
                elif f.op == 'attr' and f.args[1] in GETTERS and 'k2.fsa.Fsa.' + f.args[1] in P.funcs:
                    name = 'Fsa.' + f.args[1].lstrip('_')
                    ps = P.funcs['k2.fsa.Fsa.' + f.args[1]].params()[1:]
                    a = dict(zip(ps, args))
                    a.update(kw)
                elif f.op == 'new' and f.args[0] + '.forward' in P.funcs:
                    name = f.args[0].split('.')[-1]
                    ps = P.funcs[f.args[0] + '.forward'].params()[1:]
                    a = dict(zip(ps, args))
                    a.update(kw)
                if name is None or a is None:
                    continue
                rs.add('%s(%s)' % (name, ', '.join('%s=%s' % (k, slot_prov(v, opts, own)) for k, v in sorted(a.items()))))
        out[','.join('%s=%s' % (k, v) for k, v in sorted(sig.items()))] = sorted(rs)
    return out
