#!/usr/bin/env python3
"""C05: gradients of FSA scores flow to the scores they were made from."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyutil import *
from natargs import native_args
import evalcond
import harness
import c02

NATIVES = c02.NATIVES
G = param('__grad__')


# ---------------------------------------------------------------- autograd functions
def strip_g(t):
    """Drop conversions that leave gradient values alone."""
    while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('contiguous', 'detach', 'clone', 'to', 'view', 'reshape', 'flatten', 'float', 'double'):
        t = t.args[0].args[0]
    return t


def zero_like(t):
    """X when t is a fresh zero buffer with the shape of X; the string 'fresh' when the shape is something else."""
    t = strip_g(t)
    if t.op != 'call':
        return None
    n = callee(t)
    if n == 'torch.zeros_like':
        return t.args[1][0]
    if n == 'torch.zeros' or n == '.new_zeros':
        shape = list(t.args[1])
        kw = dict(t.args[2])
        if 'size' in kw:
            shape.append(kw['size'])
        own = set()
        for s in shape:
            if is_const(s):
                return 'fresh'
            for x in subterms(s):
                if x.op == 'attr' and x.args[1] in ('shape',):
                    own.add(x.args[0])
                if x.op == 'call' and callee(x) in ('.size', '.numel'):
                    own.add(x.args[0].args[0])
        if len(own) == 1:
            return list(own)[0]
        return 'fresh'
    return None


def ctx_state(it, fi):
    """What forward leaves in ctx: {ctx term: value}."""
    ctx = param(fi.params()[0])
    m, nsaved, saves = {}, None, []
    for e in it.events:
        if e.kind == 'setattr' and e.fn is ctx and is_const(e.args[0]):
            m.setdefault(attr(ctx, cval(e.args[0])), []).append(e.args[1])
        if e.kind == 'call' and e.fn is attr(ctx, 'save_for_backward'):
            saves.append((list(e.args), e))
    return m, saves


class Fn:
    pass


def load(c, P, known, cq):
    F = Fn()
    F.q = cq
    F.fw, F.bw = P.funcs.get(cq + '.forward'), P.funcs.get(cq + '.backward')
    c.need(F.fw is not None and F.bw is not None, cq + ' lacks forward or backward')
    F.itf = analyze(P, cq + '.forward', known=known, inline=c02.inlined)
    F.itb = analyze(P, cq + '.backward', known=known, inline=c02.inlined)
    F.state, F.saves = ctx_state(F.itf, F.fw)
    F.bctx = param(F.bw.params()[0])
    F.fctx = param(F.fw.params()[0])
    F.slots = F.fw.params()[1:]
    F.loc = P.loc(F.bw, F.bw.node)
    m = {}
    for k, vs in F.state.items():
        m[attr(F.bctx, k.args[1])] = vs[-1]
    saved = attr(F.bctx, 'saved_tensors')
    saved2 = attr(F.bctx, 'saved_variables')
    if F.saves:
        for i, v in enumerate(F.saves[0][0]):
            m[mk('item', saved, const(i))] = v
            m[mk('item', saved2, const(i))] = v
    for i in range(len(F.slots)):
        m[mk('item', attr(F.bctx, 'needs_input_grad'), const(i))] = TRUE
    F.map = m
    F.map[param(F.bw.params()[1])] = G
    return F


def value(F, t):
    t = subst(t, F.map)
    return subst(t, F.map)


def results(F):
    """Return tuples of backward, with their conditions."""
    out = []
    for e in F.itb.events:
        if e.kind == 'return' and e.args and len(e.stack) <= 1:
            out.append((value(F, e.args[0]), [(value(F, a), p, k) for a, p, k in e.pc], e))
    return out


def slots_of(t, n):
    """Per-slot gradient terms of a returned value, or None when the number is wrong."""
    if t.op == 'phi':
        a, b = slots_of(t.args[1], n), slots_of(t.args[2], n)
        if a is None or b is None:
            return None
        return [phi(t.args[0], x, y) for x, y in zip(a, b)]
    if t.op in ('tuple', 'listv'):
        return list(t.args) if len(t.args) == n else None
    return [t] if n == 1 else None


def nat(t):
    """(native name, {argument: value}) of a native call."""
    if t.op == 'call' and callee(t).startswith('_k2.'):
        return callee(t), native_args(callee(t), t.args[1], dict(t.args[2]))
    return None, None


def is_method(t, obj, name, args=None):
    if t.op == 'call' and t.args[0] is attr(obj, name):
        if args is None:
            return True
        got = list(t.args[1]) + [v for k, v in t.args[2]]
        return len(got) == len(args) and all(x is y or (y is None) for x, y in zip(got, args))
    return False


def opts(t):
    """{option: value} of a scores method call, whatever the way they are passed."""
    d = dict(t.args[2])
    for n, v in zip(OPT_ORDER.get(callee(t), ('use_double_scores', 'log_semiring')), t.args[1]):
        d[n] = v
    return d


OPT_ORDER = {}


def same_opts(t, dbl, log):
    d = opts(t)
    return d.get('use_double_scores') is const(dbl) and d.get('log_semiring', const(log)) is const(log)


def getters(c, P, known):
    """Gradient of the score getters, for each semiring and precision."""
    for m in ('_get_tot_scores', '_get_forward_scores', '_get_backward_scores', '_get_arc_post', '_get_entering_arcs'):
        fi = P.funcs.get('k2.fsa.Fsa.' + m)
        c.need(fi is not None, 'Fsa.%s not found' % m)
        OPT_ORDER['.' + m] = tuple(fi.params()[1:])
    A = 'k2.autograd.'
    for name, judge, fwd in (('_GetTotScoresFunction', tot, '_get_tot_scores'), ('_GetForwardScoresFunction', fwdbwd, '_get_forward_scores'),
                             ('_GetBackwardScoresFunction', fwdbwd, '_get_backward_scores'), ('_GetArcPostFunction', post, '_get_arc_post')):
        F = load(c, P, known, A + name)
        fsas, log, dbl = (param(p) for p in ('fsas', 'log_semiring', 'use_double_scores'))
        c.need(all(p in F.slots for p in ('fsas', 'log_semiring', 'use_double_scores', 'unused_scores')), name + ' slots changed')
        res = results(F)
        c.need(bool(res), name + '.backward never returns')
        for L in (True, False):
            for D in (True, False):
                sig = {log: TRUE if L else FALSE, dbl: TRUE if D else FALSE}
                who = '%s[log_semiring=%s, use_double_scores=%s]' % (name, L, D)
                live = [r for r in res if not contradicts(r[1], sig)]
                c.need(bool(live), who + ': no reachable return')
                for t, pc, e in live:
                    t = assume(subst(t, sig), sig)
                    s = slots_of(t, len(F.slots))
                    if s is None:
                        continue
                    g = dict(zip(F.slots, s))
                    err = judge(F, fsas, D, L, g, fwd)
                    c.check(err is None, 'score-gradient-is-the-matching-native', who, e.loc, err or '')
        # the value returned is the one of the non-differentiable getter, detached
        r = F.itf.result
        ok = r is not None and any(x.op == 'call' and callee(x) == '.' + fwd and x.args[0].args[0] is param('fsas') and
                                   opts(x).get('use_double_scores') is dbl and opts(x).get('log_semiring') is log for x in subterms(r))
        c.check(ok, 'differentiable-getter-returns-the-value', name, P.loc(F.fw, F.fw.node),
                'forward returns %s rather than %s with the given options' % (show(r)[:150] if r is not None else None, fwd))


def contradicts(pc, sig):
    for a, p, k in pc:
        v = truth_under(subst(a, sig), {})
        if v is None:
            v = truth_under(a, {x: (y is TRUE) for x, y in sig.items()})
        if v is not None and v != p:
            return True
    return False


def nones(F, g, but):
    for p in F.slots:
        if p not in but and g[p] is not NONE:
            return 'a gradient %s is returned for %s' % (show(g[p])[:100], p)
    return None


def tot(F, fsas, D, L, g, fwd):
    t = strip_g(g['unused_scores'])
    n, a = nat(t)
    w = '_k2.get_tot_scores_%s_%s_backward' % ('double' if D else 'float', 'log' if L else 'tropical')
    if n != w or a is None:
        return 'the gradient of the scores is %s, not %s' % (show(t)[:160], w)
    if a['fsas'] is not attr(fsas, 'arcs') or strip_g(a['tot_scores_grad']) is not G:
        return '%s gets %s' % (w, show(t)[:200])
    if L:
        x = strip_g(a['arc_post'])
        if not (is_method(x, fsas, '_get_arc_post') and same_opts(x, D, True)):
            return 'the arc posteriors used for the gradient are %s' % show(x)[:160]
    else:
        x = a['best_path_arc_indexes']
        sp = x.args[0] if x.op == 'item' and x.args[1] is const(1) else None
        n2, b = nat(sp) if sp is not None else (None, None)
        if n2 != '_k2.shortest_path' or b['fsas'] is not attr(fsas, 'arcs') or not is_method(b['entering_arcs'], fsas, '_get_entering_arcs') or \
                opts(b['entering_arcs']).get('use_double_scores') is not const(D):
            return 'the best path used for the gradient is %s' % show(x)[:200]
    return nones(F, g, ('unused_scores',))


def fwdbwd(F, fsas, D, L, g, fwd):
    f = 'forward' in fwd
    nm = 'forward' if f else 'backward'
    t = strip_g(g['unused_scores'])
    n, a = nat(t)
    w = '_k2.backprop_get_%s_scores_%s' % (nm, 'double' if D else 'float')
    if n != w or a is None:
        return 'the gradient of the scores is %s, not %s' % (show(t)[:160], w)
    arcs = attr(fsas, 'arcs')
    if a['fsas'] is not arcs:
        return '%s works on %s' % (w, show(a['fsas'])[:100])
    if not is_method(a['state_batches'], fsas, '_get_state_batches'):
        return 'state_batches is %s' % show(a['state_batches'])[:100]
    b = 'leaving_arc_batches' if f else 'entering_arc_batches'
    if not is_method(a[b], fsas, '_get_' + b):
        return '%s is %s' % (b, show(a[b])[:100])
    if a['log_semiring'] is not const(L):
        return 'log_semiring is %s' % show(a['log_semiring'])[:100]
    if f:
        e = a['entering_arcs']
        if L and e is not NONE and not is_method(e, fsas, '_get_entering_arcs'):
            return 'entering_arcs is %s' % show(e)[:100]
        if not L and not (is_method(e, fsas, '_get_entering_arcs') and opts(e).get('use_double_scores') is const(D)):
            return 'entering_arcs is %s' % show(e)[:100]
    s = strip_g(a[nm + '_scores'])
    if not (is_method(s, fsas, fwd) and same_opts(s, D, L)):
        return '%s_scores is %s' % (nm, show(s)[:160])
    if strip_g(a[nm + '_scores_deriv']) is not G:
        return 'the incoming gradient is %s' % show(a[nm + '_scores_deriv'])[:100]
    return nones(F, g, ('unused_scores',))


def post(F, fsas, D, L, g, fwd):
    w = '_k2.backprop_get_arc_post_%s' % ('double' if D else 'float')
    for slot, i in (('forward_scores', 0), ('backward_scores', 1)):
        if slot not in g:
            return 'there is no slot %s' % slot
        t = strip_g(g[slot])
        call = t.args[0] if t.op == 'item' and t.args[1] is const(i) else None
        n, a = nat(call) if call is not None else (None, None)
        if n != w or a is None:
            return 'the gradient of %s is %s, not result %d of %s' % (slot, show(t)[:160], i, w)
        if a['fsas'] is not attr(fsas, 'arcs') or not is_method(a['incoming_arcs'], fsas, '_get_incoming_arcs'):
            return '%s gets %s' % (w, show(call)[:200])
        d = a['arc_post_deriv']
        if strip_g(d) is not G:
            return 'the incoming gradient is %s' % show(d)[:100]
        if g['unused_scores'] is not d:
            return 'the gradient of the arc scores %s is not the buffer that %s completes' % (show(g['unused_scores'])[:100], w)
        if not any(x.op == 'call' and callee(x) in ('.clone', 'torch.clone') for x in subterms(d)):
            return '%s works on the incoming gradient itself' % w
    return nones(F, g, ('unused_scores', 'forward_scores', 'backward_scores'))


# scatter style: class -> {slot: (where its arc map comes from)}
def mapof(x):
    return lambda F: x(F)


SCATTER = {
    'k2.autograd._IntersectDensePrunedFunction': {'unused_scores_a': ('_k2.intersect_dense_pruned', 1), 'unused_scores_b': ('_k2.intersect_dense_pruned', 2)},
    'k2.autograd._IntersectDenseFunction': {'unused_scores_a': ('_k2.intersect_dense', 1), 'unused_scores_b': ('_k2.intersect_dense', 2)},
    'k2.autograd_utils._PhantomIndexSelectScoresFunction': {'unused_in_fsa_scores': 'arc_map'},
    'k2.autograd_utils._PhantomIndexAndSumScoresFunction': {'unused_in_fsa_scores': ('ragged', 'arc_map')},
    'k2.ops._IndexSelectFunction': {'src': 'index'},
}


def scatter(c, P, known):
    for cq, want in sorted(SCATTER.items()):
        F = load(c, P, known, cq)
        name = cq.split('.')[-1]
        c.need(all(s in F.slots for s in want), name + ' slots changed')
        c.need(len(F.saves) <= 1, name + ': several save_for_backward calls')
        for t, pc, e in results(F):
            s = slots_of(t, len(F.slots))
            if s is None:
                continue
            g = dict(zip(F.slots, s))
            err = nones(F, g, set(want))
            c.check(err is None, 'only-scores-have-gradients', name, e.loc, err or '')
            for slot, m in sorted(want.items()):
                who = '%s:%s' % (name, slot)
                err = scattered(F, g[slot], slot, m)
                c.check(err is None, 'gradient-goes-back-along-the-arc-map', who, e.loc, err or '')


def map_matches(F, x, m):
    x = strip(x)
    if isinstance(m, tuple) and m[0] == 'ragged':
        return x is attr(param(m[1]), 'values') or (x.op == 'call' and x.args[0] is attr(param(m[1]), 'values'))
    if isinstance(m, tuple):
        return x.op == 'item' and x.args[1] is const(m[1]) and x.args[0].op == 'call' and callee(x.args[0]) == m[0]
    return x is param(m)


def row_ids(t, rag):
    return t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'row_ids' and t.args[0].args[0] in (attr(rag, 'shape'), rag) \
        and len(t.args[1]) + len(t.args[2]) == 1 and (list(t.args[1]) + [v for _, v in t.args[2]])[0] is const(1)


def select(v):
    """(src, index) when v selects rows of src."""
    if v.op == 'call' and callee(v) in ('_k2.index_select', 'k2.ops.index_select', 'k2.index_select', 'k2.ops._IndexSelectFunction.apply'):
        a = list(v.args[1]) + [x for _, x in v.args[2]]
        return a[0], a[1]
    if v.op == 'call' and callee(v) == 'torch.index_select':
        return arg(v, 0, 'input'), arg(v, 2, 'index')
    if v.op == 'call' and callee(v) == '.index_select':
        return v.args[0].args[0], arg(v, 1, 'index')
    if v.op == 'item':
        return v.args[0], v.args[1]
    return None, None


def lits_str(ls):
    return ', '.join(lit_str(l[:2]) for l in ls)[:160]


def harmless(F, l):
    """Conditions on which leaving the buffer at zero is right: nothing to add, or the gradient is not wanted."""
    t, p = value(F, l[0]), l[1]
    v = truth_under(t, {})
    if v is not None and v == p:
        return True
    for x in subterms(t):
        if x.op == 'call' and callee(x) in ('.numel', 'builtins.len', '.size', '.nelement'):
            # true for every non-empty tensor
            vals = [evalcond.truth(t, {x: n}) for n in (1, 2, 3, 1000)]
            if all(v is not evalcond.UNK and bool(v) == p for v in vals):
                return True
    return False


def scattered(F, t, slot, m):
    z = zero_like(t)
    if z is None:
        return 'the gradient of %s is %s, not a sum over the arc map' % (slot, show(t)[:160])
    if z is not param(slot):
        return 'the gradient of %s is made with the shape of %s' % (slot, z if z == 'fresh' else show(z)[:80])
    base = strip_g(t)
    adds = []
    for e in F.itb.events:
        if e.kind != 'call' or not isinstance(e.fn, T) or e.fn.op != 'glob' or e.fn.args[0] not in ('_k2.index_add', 'k2.ops.index_add', 'k2.index_add'):
            continue
        ix, v, buf = [value(F, arg(e, i, n)) for i, n in enumerate(('index', 'value', 'in_out'))]
        if strip_g(buf) is base:
            adds.append((ix, v, e))
    if len(adds) != 1:
        return '%d index_add calls fill the gradient of %s, expected one' % (len(adds), slot)
    ix, v, e = adds[0]
    ls = [l for l in e.pc if l[2] != 'raise' and not harmless(F, l)]
    if ls:
        return 'the gradient of %s is filled only when %s' % (slot, lits_str(ls))
    if not map_matches(F, ix, m):
        return 'the gradient of %s goes back along %s' % (slot, show(ix)[:120])
    v = strip_g(v)
    if isinstance(m, tuple) and m[0] == 'ragged':
        s, i = select(v)
        if s is None or strip_g(s) is not G or not row_ids(strip(i), param(m[1])):
            return 'the gradient spread over the sources of an arc is %s' % show(v)[:160]
    elif v is not G:
        return 'the gradient sent back is %s' % show(v)[:120]
    return None


def special(c, P, known):
    # identity
    F = load(c, P, known, 'k2.autograd_utils._PhantomSetScoresFunction')
    for t, pc, e in results(F):
        s = slots_of(t, len(F.slots))
        if s is None:
            continue
        g = dict(zip(F.slots, s))
        c.check(strip_g(g['unused_in_fsa_scores']) is G, 'gradient-goes-back-along-the-arc-map', '_PhantomSetScoresFunction:unused_in_fsa_scores', e.loc,
                'the gradient of a copy is %s' % show(g['unused_in_fsa_scores'])[:100])
        err = nones(F, g, ('unused_in_fsa_scores',))
        c.check(err is None, 'only-scores-have-gradients', '_PhantomSetScoresFunction', e.loc, err or '')
    # the value returned by every phantom function and dense intersection is the scores of the result
    for cq in ('k2.autograd_utils._PhantomSetScoresFunction', 'k2.autograd_utils._PhantomIndexSelectScoresFunction',
               'k2.autograd_utils._PhantomIndexAndSumScoresFunction'):
        F = load(c, P, known, cq)
        c.check(F.itf.result is attr(param('out_fsa'), 'scores'), 'differentiable-getter-returns-the-value', cq.split('.')[-1], P.loc(F.fw, F.fw.node),
                'forward returns %s rather than the scores of out_fsa' % show(F.itf.result)[:100])
    for cq in ('k2.autograd._IntersectDensePrunedFunction', 'k2.autograd._IntersectDenseFunction'):
        F = load(c, P, known, cq)
        r = F.itf.result
        ok = r.op == 'attr' and r.args[1] == 'scores' and r.args[0].op == 'new' and r.args[0].args[0] == 'k2.fsa.Fsa'
        stored = [e for e in F.itf.events if e.kind == 'setitem' and e.fn is param('out_fsa')]
        ok = ok and any(e.args[0] is const(0) and e.args[1] is r.args[0] for e in stored)
        c.check(ok, 'differentiable-getter-returns-the-value', cq.split('.')[-1], P.loc(F.fw, F.fw.node),
                'forward returns %s, which is not the scores of the FSA it hands out' % show(r)[:120])
    # mutual information
    F = load(c, P, known, 'k2.mutual_information.MutualInformationRecursionFunction')
    saved = F.saves[0][0] if F.saves else []
    for t, pc, e in results(F):
        s = slots_of(t, len(F.slots))
        if s is None:
            continue
        g = dict(zip(F.slots, s))
        for slot, i in (('px', 0), ('py', 1)):
            x = g.get(slot)
            parts = list(x.args[1:]) if x is not None and x.op == 'op' and x.args[0] == 'Mult' else []
            own = [p for p in parts if p.op == 'item' and p.args[1] is const(i) and p.args[0].op == 'call' and callee(p.args[0]) == '_k2.mutual_information_backward']
            oth = [p for p in parts if p not in own and strip_g(unexp(p)) is G]
            c.check(len(own) == 1 and len(oth) == 1, 'gradient-goes-back-along-the-arc-map', 'MutualInformationRecursionFunction:' + slot, e.loc,
                    'the gradient of %s is %s' % (slot, show(x)[:160]))
        err = nones(F, g, ('px', 'py'))
        c.check(err is None, 'only-scores-have-gradients', 'MutualInformationRecursionFunction', e.loc, err or '')
    for e in F.itf.events:
        if e.kind == 'call' and isinstance(e.fn, T) and e.fn.op == 'glob' and e.fn.args[0] in ('_k2.mutual_information_forward', '_k2.mutual_information_backward'):
            a = native_args(e.fn.args[0], e.args, dict(e.kw))
            c.need(a is not None, 'mutual_information natives changed')
            ok = a['px'] is param('px') and a['py'] is param('py') and a['boundary'] is param('boundary')
            c.check(ok, 'gradient-goes-back-along-the-arc-map', 'MutualInformationRecursionFunction:' + e.fn.args[0], e.loc, 'called with %s' % [show(x)[:60] for x in e.args])
            if e.fn.args[0].endswith('forward'):
                p = a['p']
            else:
                c.check(a['p'] is p, 'gradient-goes-back-along-the-arc-map', 'MutualInformationRecursionFunction:p', e.loc,
                        'the backward pass reads another p than the forward pass filled')
                # computed whenever a gradient may be needed
                need = [attr(param('px'), 'requires_grad'), attr(param('py'), 'requires_grad'), param('return_grad')]
                for x in need:
                    lits = [l for l in e.pc if l[2] in ('br', 'ret')]
                    m = {y: False for y in need}
                    m[x] = True
                    ok = all(truth_under(a_, m) in (None, p_) for a_, p_, _ in lits)
                    c.check(ok, 'gradient-computed-when-needed', 'MutualInformationRecursionFunction:%s' % show(x), e.loc, 'no gradient is computed although %s' % show(x))
    # sparse abs
    F = load(c, P, known, 'k2.sparse.autograd._AbsFunction')
    X = param('sparse_tensor')
    for t, pc, e in results(F):
        v = arg(t, 1, 'values') if t.op == 'call' and callee(t) in ('torch.sparse_coo_tensor', 'torch.sparse.FloatTensor') else None
        parts = set(v.args[1:]) if v is not None and v.op == 'op' and v.args[0] == 'Mult' else set()
        gv = mk('call', attr(G, 'values'), (), ())
        ok = len(parts) == 2 and gv in parts and any(
            (x.op == 'call' and (callee(x) == '.sign' and x.args[0].args[0] is mk('call', attr(X, 'values'), (), ()) or callee(x) in ('torch.sign',))) for x in parts)
        c.check(ok, 'gradient-goes-back-along-the-arc-map', '_AbsFunction:sparse_tensor', e.loc, 'the gradient of abs is %s' % show(t)[:160])


def unexp(p):
    while True:
        if p.op == 'call' and p.args[0].op == 'attr' and p.args[0].args[1] in ('unsqueeze', 'expand', 'expand_as', 'reshape', 'view'):
            p = p.args[0].args[0]
        elif p.op == 'item' and 'None' in show(p.args[1]):
            p = p.args[0]
        else:
            return p


def whole_of(t):
    """What t is a view of (through indexing and reshaping)."""
    out = set()
    todo = [t]
    while todo:
        t = todo.pop()
        if t in out:
            continue
        out.add(t)
        if t.op == 'phi':
            todo += [t.args[1], t.args[2]]
        elif t.op == 'item':
            todo.append(t.args[0])
        elif t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in (
                'unsqueeze', 'squeeze', 'expand', 'expand_as', 'reshape', 'view', 'view_as', 't', 'transpose', 'permute', 'narrow', 'detach', 'flatten'):
            todo.append(t.args[0].args[0])
        elif t.op == 'attr' and t.args[1] in ('data', 'T'):
            todo.append(t.args[0])
    return out


def counts(c, P, known):
    """Every autograd function returns one gradient per input on every path, and unpacks what it saved."""
    n = 0
    for cq, ci in sorted(P.classes.items()):
        if not any('autograd.Function' in ast.unparse(b) for b in ci.node.bases):
            continue
        n += 1
        F = load(c, P, known, cq)
        name = cq.split('.')[-1]
        for t, pc, e in results(F):
            ok = slots_of(t, len(F.slots)) is not None
            c.check(ok, 'one-gradient-per-input', name, e.loc, 'backward returns %s for the %d inputs %s' % (show(t)[:120], len(F.slots), F.slots))
        saved = attr(F.bctx, 'saved_tensors')
        used = set()
        for e in F.itb.events:
            ts = [x for x in list(e.args or []) + ([e.fn] if isinstance(e.fn, T) else []) + list((e.kw or {}).values()) if isinstance(x, T)]
            for t in ts:
                for x in subterms(t):
                    if x.op == 'item' and x.args[0] is saved and is_const(x.args[1]):
                        used.add(cval(x.args[1]))
                    if x.op == 'attr' and x.args[0] is F.bctx and x.args[1] not in ('saved_tensors', 'needs_input_grad', 'saved_variables') and x not in F.map:
                        c.bad('backward-reads-what-forward-saved', name + ':' + x.args[1], e.loc, 'ctx.%s is read, but forward never sets it' % x.args[1])
        c.ob('backward-reads-what-forward-saved', name)
        c.ob('backward-leaves-what-forward-saved', name)
        held = {saved, attr(F.bctx, 'saved_variables')} | {k for k in F.map if k.op == 'attr' and k.args[0] is F.bctx}
        for e in F.itb.events:
            tgt = None
            if e.kind == 'inplace':
                tgt = e.args[0]
            elif e.kind == 'setitem':
                tgt = e.fn
            elif e.kind == 'call' and isinstance(e.fn, T) and e.fn.op == 'attr' and isinstance(e.fn.args[1], str) and e.fn.args[1].endswith('_') and not e.fn.args[1].endswith('__'):
                tgt = e.fn.args[0]
            if isinstance(tgt, T) and whole_of(tgt) & held and e.pc is not None:
                c.bad('backward-leaves-what-forward-saved', name, e.loc, 'backward changes %s in place: the tensor is what forward kept (a second backward, or whoever holds it, sees the change)' % show(tgt)[:80])
        for a, e in F.saves:
            if used and max(used) >= len(a):
                c.bad('backward-reads-what-forward-saved', name, F.loc, 'backward unpacks %d saved tensors, forward saves %d' % (max(used) + 1, len(a)))
        if used and not F.saves:
            c.bad('backward-reads-what-forward-saved', name, F.loc, 'backward reads saved tensors, forward saves none')
    c.need(n >= 9, 'only %d autograd functions found' % n)


# ---------------------------------------------------------------- how they are applied
APPLY = {
    'k2.autograd._GetTotScoresFunction.apply': 'getter', 'k2.autograd._GetForwardScoresFunction.apply': 'getter',
    'k2.autograd._GetBackwardScoresFunction.apply': 'getter', 'k2.autograd._GetArcPostFunction.apply': 'getter',
    'k2.autograd._IntersectDensePrunedFunction.apply': 'dense', 'k2.autograd._IntersectDenseFunction.apply': 'dense',
}


def applied(c, P, known):
    seen = {}
    for q in sorted(P.funcs):
        if q not in known:
            continue
        it = None
        src = ast.unparse(P.funcs[q].node)
        it = analyze(P, q, known=known, inline=lambda x: x in DIRECT or x.endswith('Function.forward'))
        for e in it.events:
            if e.kind != 'call' or not isinstance(e.fn, T) or e.fn.op != 'glob' or e.fn.args[0] not in APPLY or e.stack and len(e.stack) > 1:
                continue
            name = e.fn.args[0][:-len('.apply')]
            seen.setdefault(name, set()).add(q)
            ps = P.funcs[name + '.forward'].params()[1:]
            c.check(len(e.args) <= len(ps), 'applied-to-the-right-arguments', '%s:%s' % (q, name.split('.')[-1]), e.loc, 'too many arguments')
            a = dict(zip(ps, e.args))
            who = '%s:%s' % (q, name.split('.')[-1])
            if APPLY[e.fn.args[0]] == 'getter':
                me = a.get('fsas')
                want = {'unused_scores': attr(me, 'scores'), 'use_double_scores': param('use_double_scores'), 'log_semiring': param('log_semiring')}
                for k, v in want.items():
                    c.check(a.get(k) is v, 'applied-to-the-right-arguments', who + ':' + k, e.loc, '%s is %s' % (k, show(a[k])[:100] if k in a else 'missing'))
                for k in ('forward_scores', 'backward_scores'):
                    if k in ps:
                        x = a.get(k)
                        # the differentiable getter of the same FSA with the same options
                        ok = x is not None and x.op == 'call' and (
                            x.args[0] is attr(me, 'get_' + k) and opt(P, x, 'k2.fsa.Fsa.get_' + k) or
                            callee(x).endswith('_Get%sScoresFunction.apply' % k.split('_')[0].capitalize()) and x.args[1][:4] == (me, param('log_semiring'), param('use_double_scores'), attr(me, 'scores')))
                        c.check(ok, 'applied-to-the-right-arguments', who + ':' + k, e.loc, '%s is %s' % (k, show(x)[:120] if x is not None else 'missing'))
            else:
                for k, own in (('unused_scores_a', 'a_fsas'), ('unused_scores_b', 'b_fsas')):
                    c.check(own in a and a.get(k) is attr(a[own], 'scores'), 'applied-to-the-right-arguments', who + ':' + k, e.loc,
                            '%s is %s' % (k, show(a[k])[:100] if k in a else 'missing'))
    for n in APPLY:
        c.need(n[:-6] in seen, n + ' is never called')


DIRECT = set()


def opt(P, x, q):
    d = dict(x.args[2])
    for n, v in zip(P.funcs[q].params()[1:], x.args[1]):
        d[n] = v
    return d.get('use_double_scores') is param('use_double_scores') and d.get('log_semiring') is param('log_semiring')


# ---------------------------------------------------------------- scores of results stay connected
CUT_METHODS = {'detach', 'item', 'tolist', 'numpy', 'int', 'long', 'bool', 'data_ptr', 'nonzero', 'argmax', 'argsort', 'sign'}
PASS_NATIVE = {'_k2.ragged.RaggedTensor', '_k2.ragged.index_and_sum', '_k2.swoosh_l', '_k2.swoosh_r'}


def flows(v, bases, memo=None):
    """May a gradient of v reach one of bases, on every branch?"""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    memo[v] = False
    r = flows1(v, bases, memo)
    memo[v] = r
    return r


def flows1(v, bases, memo):
    if v in bases:
        return True
    if v.op == 'phi':
        return flows(v.args[1], bases, memo) and flows(v.args[2], bases, memo)
    if v.op == 'op':
        return any(flows(a, bases, memo) for a in v.args[1:] if isinstance(a, T))
    if v.op == 'item':
        return flows(v.args[0], bases, memo)
    if v.op == 'attr':
        return v.args[1] not in ('data', 'shape', 'dtype', 'device') and flows(v.args[0], bases, memo)
    if v.op == 'call':
        n = callee(v)
        if n.startswith('.'):
            return n[1:] not in CUT_METHODS and flows(v.args[0].args[0], bases, memo)
        if n in ('k2.ops.index_select', 'k2.ops._IndexSelectFunction.apply', 'k2.index_select'):
            return flows(arg(v, 0, 'src'), bases, memo)
        if n.startswith('_k2.') and n not in PASS_NATIVE:
            return False
        return any(flows(a, bases, memo) for a in list(v.args[1]) + [x for _, x in v.args[2]])
    if v.op in ('tuple', 'listv', 'newlist', 'star'):
        return any(flows(a, bases, memo) for a in v.args if isinstance(a, T))
    return False


def uses_map(v, m):
    return m is None or any(strip(x) is m or x is m for x in subterms(v))


PHANTOM = {'k2.autograd_utils._PhantomSetScoresFunction.apply': 'set', 'k2.autograd_utils._PhantomIndexSelectScoresFunction.apply': 'tensor',
           'k2.autograd_utils._PhantomIndexAndSumScoresFunction.apply': 'ragged', 'k2.autograd_utils.phantom_set_scores_to': 'set',
           'k2.autograd_utils.phantom_index_select_scores': 'tensor', 'k2.autograd_utils.phantom_index_and_sum_scores': 'ragged'}
DENSE = {'_k2.intersect_dense', '_k2.intersect_dense_pruned'}
CUT_OK = {'k2.fsa.Fsa.detach'}       # documented to cut the graph


def connected(c, P, known):
    natives, copies = set(), set()
    done = set()
    for q in sorted(P.funcs):
        if q not in known or q.endswith('Function.forward'):
            continue
        it = analyze(P, q, known=known, inline=c02.inlined)
        news = {}
        for e in it.events:
            if e.res is not None and isinstance(e.res, T) and e.res.op == 'new' and e.res.args[0] == 'k2.fsa.Fsa':
                news.setdefault(e.res, e)
        for O, e0 in news.items():
            arcs = O.args[1][0] if O.args[1] else dict(O.args[2]).get('arcs')
            if arcs is None:
                continue
            for cond, a in alts(arcs):
                cond = dict(cond)
                if a.op == 'item' and a.args[1] is const(0) and a.args[0].op == 'call':
                    n = callee(a.args[0])
                    if n in NATIVES:
                        ss = c02.sources(a.args[0], NATIVES[n])
                        per = []
                        for x, m in ss:
                            S = c02.arcs_owner(x)
                            Ss = [S] if S is not None else [c02.arcs_owner(y) for _, y in alts(x)]
                            if None in Ss:
                                # a tensor of arcs rather than an FSA: attributes come with the FSA, if there is one
                                Ss = [y for y in Ss if y is not None]
                            per.append((Ss, m))
                        if not all(s for s, _ in per):
                            continue
                        natives.add(n)
                        for k, (Ss, m) in enumerate(per):
                            for S in Ss:
                                others = [y for j, (z, _) in enumerate(per) if j != k for y in z]
                                one(c, q, it, O, e0, S, m, n, NATIVES[n][1], others, cond)
                        continue
                    if n == '.index' and c02.arcs_owner(a.args[0].args[0].args[0]) is not None:
                        copies.add('index')
                        one(c, q, it, O, e0, c02.arcs_owner(a.args[0].args[0].args[0]), None, '__getitem__', 'copy', [], cond)
                        continue
                if a.op == 'call' and callee(a) in ('.clone', '.to') and c02.arcs_owner(a.args[0].args[0]) is not None:
                    copies.add(callee(a))
                    one(c, q, it, O, e0, c02.arcs_owner(a.args[0].args[0]), None, callee(a), 'copy', [], cond)
                elif a.op == 'call' and callee(a) in ('_k2.create_fsa_vec', '_k2.cat'):
                    copies.add(callee(a))
                    joined(c, q, it, O, e0, callee(a))
                elif a.op == 'call' and callee(a) == '_k2.linear_fsa':
                    pass
    for n in NATIVES:
        c.need(n in natives, 'no FSA built from the result of %s was found' % n)
    for n in ('index', '.clone', '.to', '_k2.create_fsa_vec', '_k2.cat'):
        c.need(n in copies, 'no FSA built by %s was found' % n)
    c.floor('result-scores-stay-connected', 30)


def one(c, q, it, O, e0, S, m, native, kind, others, cond):
    if any(x.op in ('mu', 'loopval') for o in [S] + others for x in subterms(o)):
        return
    if q in CUT_OK:
        return
    who = '%s[%s:%s]' % (q, native, 'b' if others and NATIVES[native][0][0][0] != 0 else show(S)[-30:] if len(show(S)) < 30 else 'x')
    who = '%s[%s]' % (q, native) if not others else '%s[%s:%s]' % (q, native, show(S)[:40])
    if kind == 'copy' and copy_cut(it, O):
        pass
    base = attr(S, 'scores')
    hits, wrong = [], []
    for e in it.events:
        if e.kind == 'call' and isinstance(e.fn, T) and e.fn.op == 'glob':
            n = e.fn.args[0]
            if n in PHANTOM and e.args and any(x is O for _, x in alts(e.args[0])):
                k = PHANTOM[n]
                mm = e.args[2] if len(e.args) > 2 else dict(e.kw).get('arc_map')
                ok = flows(e.args[1], {base})
                if ok and k == 'tensor':
                    ok = m is not None and kind == 'tensor' and same_map(mm, m)
                elif ok and k == 'ragged':
                    ok = kind == 'ragged' and same_map(mm, m)
                elif ok:
                    ok = kind == 'copy'
                (hits if ok else wrong).append((e, cond_of(e, e0)))
            if n in APPLY and APPLY[n] == 'dense' and native in DENSE and native.split('.')[-1] == ('intersect_dense_pruned' if 'Pruned' in n else 'intersect_dense'):
                if any(flows(x, {base}) for x in e.args):
                    hits.append((e, []))
        if e.kind == 'setattr' and e.args[0] is const('scores') and any(x is O for _, x in alts(e.fn)):
            if flows(e.args[1], {base, attr(O, 'scores')}) or True and flows(e.args[1], {base}):
                hits.append((e, cond_of(e, e0)))
    uncond = [e for e, pc in hits if not [l for l in pc if l[2] != 'raise']]
    if hits and not uncond:
        # every branch must connect: the conditions of the hits must cover all cases
        cov = set()
        for e, pc in hits:
            for l in pc:
                cov.add((l[0], l[1]))
        if not any((a, not p) in cov for a, p in cov):
            c.bad('result-scores-stay-connected', who, hits[0][0].loc, 'the scores of the result are tied to those of %s only when %s' %
                  (show(S)[:60], lits_str(hits[0][1])))
    if hits:
        c.ob('result-scores-stay-connected', who)
        for e, pc in wrong:
            c.bad('result-scores-stay-connected', who, e.loc, 'the scores of the result are tied to %s' % show(e.args[1])[:160])
        return
    if wrong:
        e = wrong[0][0]
        c.check(False, 'result-scores-stay-connected', who, e.loc, 'the scores of the result are tied to %s along %s' % (
            show(e.args[1])[:120], show(e.args[2])[:80] if len(e.args) > 2 else 'no map'))
        return
    # through the attribute loop, when it includes the scores
    evs = c02.set_events(it, O)
    loops, _ = c02.loops_over(evs, S)
    groups = {}
    for e, E in loops:
        groups.setdefault(E, []).append((e, E))
    ok, why = False, 'nothing ties the scores of the result to those of %s' % show(S)[:80]
    cov = None
    for E, evs2 in groups.items():
        inc = c02.source_of(E.args[0])[2]
        if not inc:
            why = 'the scores of %s are left out of the attributes carried over' % show(S)[:80]
            continue
        N, val = mk('item', E, const(0)), mk('item', E, const(1))
        bases = {val, attr(S, 'scores'), mk('attrdyn', S, N), mk('getattr', S, N)}
        has = {o: True for o in others}
        outs = c02.run_case(evs2, ('T', 'f32', 'scores', has), N, val, O, {}, e0)
        good = True
        for free, v in outs:
            if v == 'raise':
                continue
            if v is None:
                # left to the loop over the other operand?
                good = False
                why = 'on some path the scores of %s are not carried over' % show(S)[:80]
                continue
            v = assume(v, cond) if cond else v
            if not flows(v, bases):
                good = False
                why = 'the scores of the result are %s, which cuts the gradient to %s' % (show(v)[:160], show(S)[:60])
        if good and outs:
            ok = True
    if not ok and others:
        # summed by the loop over the other operand
        for E, evs2 in by_loop(evs, others):
            N, val = mk('item', E, const(0)), mk('item', E, const(1))
            bases = {attr(S, 'scores'), mk('attrdyn', S, N), mk('getattr', S, N), mk('item', attr(S, '_tensor_attr'), N)}
            outs = c02.run_case(evs2, ('T', 'f32', 'scores', {S: True}), N, val, O, {}, e0)
            if outs and all(v == 'raise' or v is not None and flows(v, bases) for _, v in outs):
                ok = True
            elif outs:
                why = 'the scores of the result are %s, which cuts the gradient to %s' % (show(outs[0][1])[:160] if isinstance(outs[0][1], T) else outs[0][1], show(S)[:60])
    c.check(ok, 'result-scores-stay-connected', who, e0.loc, why)


def copy_cut(it, O):
    return False


def same_map(x, m):
    if x is None:
        return False
    x = strip(x)
    if x is m or strip(m) is x:
        return True
    return any(y is m for _, y in alts(x)) or any(y is x for _, y in alts(m))


def by_loop(evs, Ss):
    out = {}
    for S in Ss:
        for e, E in c02.loops_over(evs, S)[0]:
            if c02.source_of(E.args[0])[2]:
                out.setdefault(E, []).append((e, E))
    return out.items()


def cond_of(e, e0):
    base = set((a, p) for a, p, k in c02.lits(e0.pc))
    return [l for l in c02.lits(e.pc) if (l[0], l[1]) not in base and l[2] != 'raise']


def joined(c, q, it, O, e0, native):
    """A concatenation: the scores are among the attributes that are joined."""
    who = '%s[%s]' % (q, native)
    evs = c02.set_events(it, O)
    ok, why = False, 'the scores of the parts are not joined'
    for i, e in evs:
        nm, v = e.args[0], e.args[1]
        if nm is const('scores') or not is_const(nm):
            cats = [x for x in subterms(v) if x.op == 'call' and callee(x) in ('torch.cat', 'torch.concat')]
            if cats and flows_cat(v):
                if nm is not const('scores') and any(x.op == 'call' and callee(x) == '.named_tensor_attr' and arg(x, 0, 'include_scores', TRUE) is FALSE for x in subterms(nm)):
                    why = 'the scores are left out of the attributes that are joined'
                    continue
                ok = True
    c.check(ok, 'result-scores-stay-connected', who, e0.loc, why)


def flows_cat(v):
    """torch.cat reached without a cut, on every branch of v (ragged branch excepted)."""
    if v.op == 'phi':
        return flows_cat(v.args[1]) or flows_cat(v.args[2])
    if v.op == 'call' and callee(v) in ('torch.cat', 'torch.concat'):
        return not any(x.op == 'call' and callee(x) in ('.detach', '.item', '.tolist') or x.op == 'attr' and x.args[1] == 'data' for x in subterms(v))
    if v.op == 'call' and callee(v).startswith('.') and callee(v)[1:] not in CUT_METHODS:
        return flows_cat(v.args[0].args[0])
    return False


# who computes new scores -> what they are computed from
SET_FROM = {'k2.rnnt_decode.RnntDecodingStreams.format_output': ('log_probs',)}
SAMPLERS = ('k2.fsa_algo.random_paths',)


def set_scores(c, P, known):
    """Scores computed from other scores keep the connection to them (unless they only serve to draw samples)."""
    for q in sorted(P.funcs):
        if q not in known or q.startswith('k2.fsa.Fsa.__'):
            continue
        it = analyze(P, q, known=known)
        for e in it.events:
            if e.kind != 'setattr' or not isinstance(e.args[0], T) or not is_const(e.args[0]) or cval(e.args[0]) != 'scores' or not isinstance(e.fn, T):
                continue
            own = {x for _, x in alts(e.fn)}
            v = e.args[1]
            meta = {y for x in subterms(v) if x.op == 'attr' and x.args[1] in ('device', 'dtype', 'shape') for y in subterms(x)}
            base = {x for x in subterms(v) if x.op == 'attr' and x.args[1] == 'scores' and x not in meta or x is param('scores')}
            only = SET_FROM.get(q)
            if only:
                base = {x for x in subterms(v) if x.op == 'param' and x.args[0] in only}
                c.need(base or any(x.op == 'param' and x.args[0] in only for a, _, _ in e.pc for x in subterms(a)), q + ' sets scores from another source')
            if not base:
                continue
            uses = [callee(u.res) for u in it.events if u.kind == 'call' and isinstance(u.res, T) and u.res.op == 'call' and
                    any(a in own for a in list(u.args) + list(dict(u.kw).values()) if isinstance(a, T))]
            if uses and all(u in SAMPLERS for u in uses) and all(o.op != 'param' for o in own):
                continue
            c.check(any(flows(v, {b}) for b in base), 'set-scores-stay-connected', q, e.loc,
                    'the scores set here no longer depend, for autograd, on %s' % ', '.join(sorted({show(b)[-60:] for b in base}))[:200])
    c.floor('set-scores-stay-connected', 4)


# function -> (component of the result, inputs it is differentiable in)
LOSSES = {
    'k2.rnnt_loss.fix_for_boundary': [(None, ('px',))],
    'k2.rnnt_loss.get_rnnt_logprobs': [(0, ('lm', 'am')), (1, ('lm', 'am'))],
    'k2.rnnt_loss.get_rnnt_logprobs_joint': [(0, ('logits',)), (1, ('logits',))],
    'k2.rnnt_loss.get_rnnt_logprobs_pruned': [(0, ('logits',)), (1, ('logits',))],
    'k2.rnnt_loss.get_rnnt_logprobs_smoothed': [(0, ('lm', 'am')), (1, ('lm', 'am'))],
    'k2.rnnt_loss.do_rnnt_pruning': [(0, ('am',)), (1, ('lm',))],
    'k2.rnnt_loss.rnnt_loss_simple': [(None, ('lm', 'am'))],
    'k2.rnnt_loss.rnnt_loss': [(None, ('logits',))],
    'k2.rnnt_loss.rnnt_loss_pruned': [(None, ('logits',))],
    'k2.rnnt_loss.rnnt_loss_smoothed': [(None, ('lm', 'am'))],
    'k2.mutual_information.mutual_information_recursion': [(None, ('px', 'py'))],
    'k2.mutual_information.joint_mutual_information_recursion': [(None, ('px', 'py'))],
    'k2.ctc_loss.CtcLoss.forward': [(None, ('decoding_graph',)), (None, ('dense_fsa_vec',))],
    'k2.ctc_loss.ctc_loss': [(None, ('decoding_graph',)), (None, ('dense_fsa_vec',))],
    'k2.mwer_loss.MWERLoss.forward': [(None, ('lattice',))],
    'k2.mwer_loss.mwer_loss': [(None, ('lattice',))],
    'k2.ops.index_select': [(None, ('src',))],
    'k2.sparse.autograd.abs': [(None, ('sparse_tensor',))],
}


def leaves(v):
    if v.op == 'phi':
        return leaves(v.args[1]) + leaves(v.args[2])
    return [v]


def losses(c, P, known):
    """What a loss function (or a step of one) returns depends, for autograd, on the inputs it is differentiable in."""
    for q, want in sorted(LOSSES.items()):
        c.need(q in P.funcs, q + ' vanished')
        it = analyze(P, q, known=known, inline=lambda x: c02.inlined(x) and x not in LOSSES and not x.startswith('k2.autograd.'))
        rets = [e for e in it.events if e.kind == 'return' and len(e.stack) <= 1 and e.args]
        c.need(rets, q + ' returns nothing')
        for comp, ins in want:
            for p in ins:
                for e in rets:
                    for v in leaves(e.args[0]):
                        if v.op == 'tuple':
                            v = v.args[comp or 0]
                        c.check(flows(v, {param(p)}), 'loss-stays-connected', '%s%s:%s' % (q, '' if comp is None else '[%d]' % comp, p), e.loc,
                                'the result no longer depends, for autograd, on %s: %s' % (p, show(v)[:120]))
        if q.endswith('.joint_mutual_information_recursion'):
            # the correction added to the first row makes up for a difference of VALUES; its own gradient would cancel that of the rows
            for e in it.events:
                x = e.args[1] if e.kind == 'inplace' and e.fn.args[0] in ('Add', 'Sub') else None
                if x is not None and isinstance(x, T):
                    c.check(not flows(x, {param('px')}) and not flows(x, {param('py')}), 'loss-stays-connected', q + ':correction', e.loc,
                            'the correction added here carries a gradient, which cancels that of the rows it corrects')
    c.floor('loss-stays-connected', 24)


def main(c):
    P = Program()
    known = load_known()
    getters(c, P, known)
    scatter(c, P, known)
    special(c, P, known)
    counts(c, P, known)
    applied(c, P, known)
    connected(c, P, known)
    set_scores(c, P, known)
    losses(c, P, known)
    c.floor('score-gradient-is-the-matching-native', 16)
    c.floor('gradient-goes-back-along-the-arc-map', 8)
    c.floor('applied-to-the-right-arguments', 12)
    c.assumptions += ['natives return the arc maps at the positions listed in the table of C02', 'native backward functions compute the derivative their names say']


if __name__ == '__main__':
    harness.main('C05', 'abstract interpretation of every autograd function (backward composed with what forward saved, under every option assignment) and of every site that builds an FSA', main)
