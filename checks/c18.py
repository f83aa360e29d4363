#!/usr/bin/env python3
"""C18: sequence losses: reductions, lattice types, delay penalty and length requirements."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyutil import *
from evalcond import holds, truth, SHAPES, UNK, Vec
import evalcond
from poly import poly, show_poly, unshape, fn_name, add, mul, num, atom, full_slice
import harness
import c02

R = 'k2.rnnt_loss.'
TYPES = ('regular', 'modified', 'constrained')
# function: (names and shapes of the tensor arguments, boundary may be None)
LOGPROBS = {
    R + 'get_rnnt_logprobs': ({'lm': 'BsC', 'am': 'BTC', 'symbols': 'BS'}, True),
    R + 'get_rnnt_logprobs_smoothed': ({'lm': 'BsC', 'am': 'BTC', 'symbols': 'BS'}, True),
    R + 'get_rnnt_logprobs_joint': ({'logits': 'BTsC', 'symbols': 'BS'}, True),
    R + 'get_rnnt_logprobs_pruned': ({'logits': 'BTRC', 'symbols': 'BS', 'ranges': 'BTR'}, False),
    R + 'get_hat_logprobs_pruned': ({'logits': 'BTRC', 'symbols': 'BS', 'ranges': 'BTR'}, False),
}
LOSSES = {
    R + 'rnnt_loss_simple': R + 'get_rnnt_logprobs',
    R + 'rnnt_loss_smoothed': R + 'get_rnnt_logprobs_smoothed',
    R + 'rnnt_loss': R + 'get_rnnt_logprobs_joint',
    R + 'rnnt_loss_pruned': R + 'get_rnnt_logprobs_pruned',
}
RED = ('none', 'mean', 'sum')


def inl(q):
    return c02.inlined(q) and not q.startswith('k2.mutual_information.')


# ------------------------------------------------------------- reductions
def reduced(t):
    """(sign, reductions outermost first, core)."""
    sign, ops = 1, []
    while True:
        if t.op == 'op' and t.args[0] == 'USub':
            sign, t = -sign, t.args[1]
            continue
        if t.op == 'op' and t.args[0] == 'Mult':
            a, b = t.args[1:]
            if is_const(b) and cval(b) in (1, -1):
                a, b = b, a
            if is_const(a) and cval(a) in (1, -1):
                sign, t = sign * int(cval(a)), b
                continue
        if t.op == 'call':
            n = fn_name(t)
            if n in ('torch.mean', 'torch.sum', 'torch.neg', '.mean', '.sum', '.neg', 'torch.negative') and not dict(t.args[2]):
                x = t.args[1][0] if n[0] == 't' and len(t.args[1]) == 1 else t.args[0].args[0] if n[0] == '.' and not t.args[1] else None
                if x is not None:
                    if n.endswith(('neg', 'negative')):
                        sign = -sign
                    else:
                        ops.append(n.split('.')[-1])
                    t = x
                    continue
            if n in ('.to', '.float', '.contiguous'):
                t = t.args[0].args[0]
                continue
        return sign, ops, t


def red_case(t, red_terms, v):
    """t with the reduction option known to be v."""
    m = {}
    for x in set(subterms(t)):
        if x.op == 'eq' and len(x.args) == 2:
            for a, b in (x.args, x.args[::-1]):
                if a in red_terms and is_const(b):
                    m[x] = cval(b) == v
    return assume(t, m)


def live(pc, red_terms, v):
    m = {r: v for r in red_terms}
    return holds(pc, m) is not False


def returns(it, fn):
    return [e for e in it.events if e.kind == 'return' and e.args and len(e.stack) <= 1]


def reduction(c, P, it, q, red_terms, expect, extra=lambda v, s: None):
    """expect(v) -> (sign, ops); every value handled, anything else rejected."""
    fi = P.funcs[q]
    loc = P.loc(fi, fi.node)
    cores = {}
    for v in RED:
        rs = []
        for e in returns(it, q):
            if live(e.pc, red_terms, v):
                rs.append(red_case(e.args[0], red_terms, v))
        c.ob('reduction', '%s reduction=%s' % (q, v))
        if not rs:
            c.bad('reduction', '%s reduction=%s' % (q, v), loc, 'nothing is returned for reduction=%r' % v)
            continue
        for r in rs:
            for pcs, t in alts(r):
                if t.op in ('tuple', 'listv') and t.args:
                    t = t.args[0]
                t = red_case(t, red_terms, v)
                sign, ops, core = reduced(t)
                es, eo = expect[v]
                if (sign, ops) != (es, eo):
                    c.bad('reduction', '%s reduction=%s' % (q, v), loc, 'expected %s%s of the per-sequence scores, found %s%s of %s' % (
                        '-' if es < 0 else '', '/'.join(eo) or 'the value', '-' if sign < 0 else '', '/'.join(ops) or 'the value', show(core)[:120]))
                else:
                    cores.setdefault(v, set()).add(core)
    return cores


# ------------------------------------------------------------- rnnt
def sigma_terms(ty, boundary, delay=None, ret=None, hat=None):
    m = {}
    for t in TYPES:
        m[mk('eq', param('rnnt_type'), const(t))] = (t == ty)
        m[mk('eq', const(t), param('rnnt_type'))] = (t == ty)
    m[mk('is', param('boundary'), NONE)] = not boundary
    if delay is not None:
        m[mk('lt', const(0.0), param('delay_penalty'))] = delay
        m[mk('lt', const(0), param('delay_penalty'))] = delay
        m[mk('eq', param('delay_penalty'), const(0.0))] = not delay
        m[mk('le', param('delay_penalty'), const(0.0))] = not delay
        m[mk('le', param('delay_penalty'), const(0))] = not delay
    if ret is not None:
        m[param('return_grad')] = ret
    if hat is not None:
        m[param('use_hat_loss')] = hat
    return m


def recursion_args(it, m):
    """(px, py, boundary, return_grad) of the recursion the loss rests on."""
    for e in it.events:
        if e.kind == 'call' and isinstance(e.fn, T) and show(e.fn).strip("'").endswith('mutual_information.mutual_information_recursion'):
            if any(truth_under(a, m) not in (None, p) for a, p, k in e.pc):
                continue
            out = []
            for i, n in enumerate(('px', 'py', 'boundary', 'return_grad')):
                x = arg(e, i, n)
                out.append(None if x is None else assume(x, m))
            return out
    return None


def canon_with(base_px):
    def canon(t):
        if t.op == 'call' and fn_name(t) == 'torch.arange' and 1 <= len(t.args[1]) <= 2:
            a = t.args[1]
            if len(a) == 2 and not (is_const(a[0]) and cval(a[0]) == 0):
                return None
            return 'arange(%s)' % show_poly(poly(a[-1], canon))
        if t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) in (2, -1) and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and \
                same(t.args[0].args[0], base_px):
            return 'T0'
        if t.op == 'call' and fn_name(t) == '.size' and len(t.args[1]) == 1 and is_const(t.args[1][0]) and cval(t.args[1][0]) in (2, -1) and same(t.args[0].args[0], base_px):
            return 'T0'
        col = column(t)
        if col is not None:
            return 'boundary[:,%d]' % col
        return None
    return canon


def same(a, b):
    return unshape(a) is unshape(b)


def column(t):
    """k for boundary[:, k]."""
    if t.op == 'item' and t.args[0] is param('boundary') and t.args[1].op == 'tuple' and len(t.args[1].args) == 2:
        a, b = t.args[1].args
        if is_const(b) and isinstance(cval(b), int):
            return cval(b)
    if t.op == 'call' and fn_name(t) == '.select' and t.args[0].args[0] is param('boundary') and len(t.args[1]) == 2 and all(map(is_const, t.args[1])) and cval(t.args[1][0]) == 1:
        return cval(t.args[1][1])
    return None


def tail_slice(i):
    """True for [:, 1:, :] (or [:, 1:])."""
    xs = i.args if i.op == 'tuple' else ()
    if len(xs) not in (2, 3):
        return False
    s = show(xs[1])
    return full_slice(xs[0]) and (len(xs) == 2 or full_slice(xs[2])) and s.replace(' ', '') in ('slice(1,None,None)', 'builtins.slice(1,None,None)')


def inf_fill(t):
    return is_const(t) and cval(t) == float('-inf') or t.op == 'call' and show(t).replace("'", '') in ('builtins.float(-inf)',) or \
        t.op == 'op' and t.args[0] == 'USub' and show(t.args[1]).replace("'", '') in ('inf', 'builtins.float(inf)', 'math.inf', 'torch.inf') or show(t) == '-inf'


def frame_pads(t):
    """concatenations that add one frame of -inf."""
    out = []
    for x in subterms(t):
        if x.op == 'call' and fn_name(x) in ('torch.cat', 'torch.concat') and x.args[1] and x.args[1][0].op in ('tuple', 'listv'):
            d = dict(x.args[2]).get('dim', x.args[1][1] if len(x.args[1]) > 1 else None)
            for y in x.args[1][0].args[1:]:
                if y.op == 'call' and fn_name(y) in ('torch.full', '.new_full') and len(y.args[1]) >= 2 and inf_fill(y.args[1][1]):
                    sh = y.args[1][0]
                    if sh.op in ('tuple', 'listv') and len(sh.args) == 3 and is_const(sh.args[2]) and cval(sh.args[2]) == 1 and d is not None and is_const(d) and cval(d) in (2, -1):
                        out.append(x)
        if x.op == 'call' and fn_name(x) in ('torch.nn.functional.pad',) and len(x.args[1]) > 1 and x.args[1][1].op in ('tuple', 'listv'):
            p = x.args[1][1].args
            if len(p) >= 2 and all(map(is_const, p)) and [cval(y) for y in p[:2]] == [0, 1] and not any(cval(y) for y in p[2:]):
                out.append(x)
    return out


def scatters(t):
    """(dim, index column, value) of scatter calls in t."""
    out = []
    for x in subterms(t):
        if x.op == 'call' and fn_name(x) in ('.scatter_', '.scatter', 'torch.scatter'):
            off = 1 if fn_name(x)[0] == 't' else 0
            kw = dict(x.args[2])
            get = lambda i, n: kw.get(n, x.args[1][i + off] if len(x.args[1]) > i + off else None)
            d, ix, v = get(0, 'dim'), get(1, 'index'), get(2, 'value')
            if v is None:
                v = get(2, 'src')
            col = None if ix is None else column(unshape(ix))
            out.append((cval(d) if d is not None and is_const(d) else None, col, v is not None and inf_fill(v)))
    return out


def rnnt(c, P, known):
    for q, (shapes, optional) in LOGPROBS.items():
        c.need(q in P.funcs, q + ' is gone')
        fi = P.funcs[q]
        loc = P.loc(fi, fi.node)
        it = analyze(P, q, known=known, inline=inl)
        rets = returns(it, q)
        for b in (False, True):
            px, py = {}, {}
            for ty in TYPES:
                m = sigma_terms(ty, b)
                got = []
                for e in rets:
                    if any(truth_under(a, m) not in (None, p) for a, p, k in e.pc):
                        continue
                    t = assume(e.args[0], m)
                    if t.op == 'tuple' and len(t.args) == 2:
                        got.append(t.args)
                inst = '%s rnnt_type=%s boundary=%s' % (q, ty, b)
                c.ob('lattice type', inst)
                if len(set(got)) != 1:
                    c.bad('lattice type', inst, loc, 'does not return one (px, py) pair for this type')
                    continue
                px[ty], py[ty] = got[0]
                pads, sc = frame_pads(px[ty]), scatters(px[ty])
                if (ty == 'regular') != bool(pads):
                    c.bad('lattice type', inst, loc, 'px %s an extra frame of -inf' % ('lacks' if ty == 'regular' else 'has'))
                want = [(2, 3, True)] if ty == 'regular' and b else []
                if [(2 if d == -1 else d, k, v) for d, k, v in set(sc)] != want:
                    c.bad('lattice type', inst, loc, 'px beyond the last frame of each sequence (boundary[:, 3]) must be %s; found scatter (dim, boundary column, -inf) = %s' % ('-inf' if want else 'left alone', sorted(set(sc), key=str)))
            if len(px) == 3:
                inst = '%s constrained against modified boundary=%s' % (q, b)
                c.ob('lattice type', inst)
                pyt = py['constrained']

                def canon(t):
                    if t.op == 'item' and tail_slice(t.args[1]) and same(t.args[0], pyt):
                        return 'py[:,1:,:]'
                    return None
                d = add(poly(px['constrained'], canon), poly(px['modified'], canon), -1)
                if d != atom('py[:,1:,:]'):
                    c.bad('lattice type', inst, loc, 'px of the constrained type must be that of the modified type + py[:, 1:, :]; the difference is %s' % show_poly(d)[:200])
                c.check(same(py['constrained'], py['modified']) and same(py['regular'], py['modified']), 'lattice type', q + ' py boundary=%s' % b, loc, 'py depends on rnnt_type')
        # the same normalisers are subtracted from the symbol and the termination log-probs
        norms = {'px': set(), 'py': set()}
        pxs, pys = set(), set()
        for e in rets:
            for _, t in alts(e.args[0]):
                if t.op == 'tuple' and len(t.args) == 2:
                    pxs |= set(subterms(t.args[0]))
                    pys |= set(subterms(t.args[1]))
        for e in it.events:
            if e.kind == 'setitem' and isinstance(e.fn, T) and any(x in pxs for _, x in alts(e.fn)):
                pxs |= set(subterms(e.args[1]))
        for side, ts in (('px', pxs - pys), ('py', pys)):
            for t in ts:
                if t.op == 'op' and t.args[0] == 'Sub':
                    n = normalizer(t.args[2])
                    if n is not None:
                        norms[side].add(n)
        if 'hat' not in q:
            # slices of py occur in px, not the other way round
            missing = norms['py'] - norms['px'] - subs(pxs)
            c.check(bool(norms['py']) and not missing and not norms['px'] - norms['py'], 'normalised alike', q, loc,
                    'normalisers subtracted from py: %s; from px: %s' % (sorted(show(x)[:80] for x in norms['py']), sorted(show(x)[:80] for x in norms['px'])))
        lengths(c, P, it, q, shapes, optional)


def subs(ts):
    out = set()
    for t in ts:
        if t.op == 'op' and t.args[0] == 'Sub':
            n = normalizer(t.args[2])
            if n is not None:
                out.add(n)
    return out


def normalizer(t):
    """The log-normaliser behind slices and permutations, or None."""
    while True:
        u = unshape(t)
        if u.op == 'call' and fn_name(u) in ('.permute', '.transpose'):
            u = u.args[0].args[0]
        elif u.op == 'item' and (u.args[1].op == 'tuple' and all(x.op in ('slice', 'call') for x in u.args[1].args)):
            u = u.args[0]
        if u is t:
            break
        t = u
    for x in subterms(t):
        if x.op == 'call' and fn_name(x) in ('torch.logsumexp', '.logsumexp'):
            return x
        if x.op == 'call' and fn_name(x) in ('.log', 'torch.log'):
            return x
    return None


# ------------------------------------------------------------- scenarios
def dims(spec, D):
    return tuple(D[ch] for ch in spec)


def scenario(it, shapes, D, values=None, boundary=None, nshape=None):
    """'raises', 'passes' or 'unknown'."""
    m = {SHAPES: {param(k): dims(v, D) for k, v in shapes.items()}}
    if nshape:
        m[SHAPES].update({param(k): v for k, v in nshape.items()})
    for k in m[SHAPES]:
        m[attr(k, 'dtype')] = 'torch.float32'
    b = param('boundary')
    m[mk('is', b, NONE)] = boundary is None
    if boundary is not None:
        m[SHAPES][b] = (D['B'], 4)
        m[attr(b, 'dtype')] = 'torch.int64'
        m[glob('torch.int64')] = 'torch.int64'
        for x in it_terms(it):
            k = column(x)
            if k is not None:
                # one long sequence beside the one described
                m[x] = Vec([boundary[k], (0, 0, 2, 7)[k]])
            if x.op == 'item' and is_const(x.args[1]) and isinstance(cval(x.args[1]), int) and x.args[0].op == 'elem' and b in subterms(x.args[0]):
                m[x] = boundary[cval(x.args[1])]
    for k, v in (values or {}).items():
        m[k if isinstance(k, T) else param(k)] = v
    unk = False
    for e in it.events:
        if e.kind == 'raise':
            v = holds(e.pc, m)
            if v is True:
                return 'raises'
            if v is UNK:
                unk = True
    return 'unknown' if unk else 'passes'


_terms = {}


def it_terms(it):
    if id(it) not in _terms:
        s = set()
        for e in it.events:
            for a, _, _ in e.pc:
                s |= set(subterms(a))
        _terms[id(it)] = (it, s)
    return _terms[id(it)][1]


def expect(c, rule, inst, loc, got, want, text):
    c.ob(rule, inst)
    if want == 'raises' and got != 'raises':
        c.bad(rule, inst, loc, text + ' is not rejected')
    if want == 'passes' and got == 'raises':
        c.bad(rule, inst, loc, text + ' is rejected')


def lengths(c, P, it, q, shapes, optional):
    fi = P.funcs[q]
    loc = P.loc(fi, fi.node)
    base = dict(B=2, T=7, S=5, s=6, C=11, R=3)
    short = dict(base, T=3)
    tv = {'termination_symbol': 0}
    for ty in TYPES:
        v = dict(tv, rnnt_type=ty)
        ok = ty == 'regular'
        if optional:
            expect(c, 'lengths', '%s %s T<S' % (q, ty), loc, scenario(it, shapes, short, v), 'passes' if ok else 'raises', 'rnnt_type=%s with fewer frames than symbols' % ty)
            expect(c, 'lengths', '%s %s T=S-1' % (q, ty), loc, scenario(it, shapes, dict(base, T=4), v), 'passes' if ok else 'raises', 'rnnt_type=%s with one frame less than symbols' % ty)
            expect(c, 'lengths', '%s %s T>=S' % (q, ty), loc, scenario(it, shapes, base, v), 'passes', 'rnnt_type=%s with enough frames' % ty)
            expect(c, 'lengths', '%s %s T=S' % (q, ty), loc, scenario(it, shapes, dict(base, T=5), v), 'passes', 'rnnt_type=%s with as many frames as symbols' % ty)
        expect(c, 'lengths', '%s %s T_i<S_i' % (q, ty), loc, scenario(it, shapes, base, v, boundary=(0, 0, 5, 4)), 'passes' if ok else 'raises',
               'rnnt_type=%s with a sequence of fewer frames than symbols (by its boundary)' % ty)
        expect(c, 'lengths', '%s %s T_i>=S_i' % (q, ty), loc, scenario(it, shapes, base, v, boundary=(0, 0, 4, 6)), 'passes', 'rnnt_type=%s with long enough sequences' % ty)
        expect(c, 'lengths', '%s %s T_i=S_i' % (q, ty), loc, scenario(it, shapes, base, v, boundary=(0, 0, 5, 5)), 'passes', 'rnnt_type=%s with as many frames as symbols' % ty)
        expect(c, 'lengths', '%s %s T<S but T_i>=S_i' % (q, ty), loc, scenario(it, shapes, short, v, boundary=(0, 0, 2, 3)), 'passes', 'rnnt_type=%s with long enough sequences in a batch padded with symbols' % ty)
    expect(c, 'lengths', q + ' unknown type', loc, scenario(it, shapes, base, dict(tv, rnnt_type='simple'), boundary=(0, 0, 4, 6)), 'raises', 'an unknown rnnt_type')
    if 'ranges' not in shapes:
        expect(c, 'lengths', q + ' symbols of another shape', loc, scenario(it, dict(shapes, symbols='Bs'), base, dict(tv, rnnt_type='regular'), boundary=(0, 0, 4, 6)), 'raises',
               'symbols of a shape other than [B][S]')
    else:
        expect(c, 'lengths', q + ' ranges of another shape', loc, scenario(it, dict(shapes, ranges='BSR'), base, dict(tv, rnnt_type='regular'), boundary=(0, 0, 4, 6)), 'raises',
               'ranges of a shape other than [B][T][s_range]')


def recursion_guards(c, P, known):
    M = 'k2.mutual_information.'
    for q, px, py in ((M + 'mutual_information_recursion', 'px', 'py'),):
        c.need(q in P.funcs, q + ' is gone')
        fi = P.funcs[q]
        loc = P.loc(fi, fi.node)
        it = analyze(P, q, known=known, inline=c02.inlined)
        D = dict(B=2, S=5, s=6, T=7, t=8, u=9)
        ok = {px: 'BSt', py: 'BsT'}
        v = {attr(param('px'), 'dtype'): 'f', attr(param('py'), 'dtype'): 'f'}
        ex = lambda n, want, sh=ok, b=None, vv=v: expect(c, 'recursion input', '%s %s' % (q, n), loc, scenario(it, sh, D, vv, boundary=b), want, n)
        ex('regular shapes', 'passes')
        ex('modified shapes', 'passes', {px: 'BST', py: 'BsT'})
        ex('px two frames longer than py', 'raises', {px: 'BSu', py: 'BsT'})
        ex('px one frame shorter than py', 'raises', {px: 'BSS', py: 'BsT'})
        ex('py with as many symbols as px', 'raises', {px: 'BSt', py: 'BST'})
        ex('px with two axes', 'raises', {px: 'BS', py: 'BsT'})
        ex('different dtypes', 'raises', ok, None, {attr(param('px'), 'dtype'): 'f', attr(param('py'), 'dtype'): 'd'})
        for b, n, want in (((0, 0, 5, 7), 'full boundary', 'passes'), ((1, 2, 4, 6), 'inner boundary', 'passes'), ((2, 3, 2, 3), 'empty boundary', 'passes'),
                           ((-1, 0, 5, 7), 'negative symbol begin', 'raises'), ((0, -1, 5, 7), 'negative frame begin', 'raises'),
                           ((4, 0, 3, 7), 'symbol end before begin', 'raises'), ((0, 5, 3, 4), 'frame end before begin', 'raises'),
                           ((0, 0, 6, 7), 'symbol end beyond S', 'raises'), ((0, 0, 5, 8), 'frame end beyond T', 'raises')):
            ex(n, want, ok, b)
        vb = dict(v)
        vb[attr(param('boundary'), 'dtype')] = 'torch.int32'
        ex('boundary of a dtype other than int64', 'raises', ok, (0, 0, 5, 7), vb)


def pruning_guards(c, P, known):
    q = R + 'do_rnnt_pruning'
    c.need(q in P.funcs, q + ' is gone')
    it = analyze(P, q, known=known, inline=c02.inlined)
    fi = P.funcs[q]
    loc = P.loc(fi, fi.node)
    D = dict(B=2, b=3, S=5, s=6, T=7, R=3, E=9, F=8)
    for n, sh, want in (('matching shapes', {'am': 'BTE', 'lm': 'BsF', 'ranges': 'BTR'}, 'passes'), ('ranges of another batch size', {'am': 'BTE', 'lm': 'BsF', 'ranges': 'bTR'}, 'raises'),
                        ('lm of another batch size', {'am': 'BTE', 'lm': 'bsF', 'ranges': 'BTR'}, 'raises'), ('ranges of another number of frames', {'am': 'BTE', 'lm': 'BsF', 'ranges': 'BSR'}, 'raises')):
        expect(c, 'pruning input', '%s %s' % (q, n), loc, scenario(it, sh, D), want, n)
    q = R + 'get_rnnt_prune_ranges'
    c.need(q in P.funcs, q + ' is gone')
    it = analyze(P, q, known=known, inline=c02.inlined)
    fi = P.funcs[q]
    loc = P.loc(fi, fi.node)
    D = dict(B=2, S=5, s=6, T=7, t=8, u=9)
    mod, reg = {'px_grad': 'BST', 'py_grad': 'BsT'}, {'px_grad': 'BSt', 'py_grad': 'BsT'}
    for n, sh, sr, b, want in (('modified, s_range 1', mod, 1, (0, 0, 5, 7), 'passes'), ('modified, s_range 0', mod, 0, (0, 0, 5, 7), 'raises'),
                               ('px two frames longer', {'px_grad': 'BSu', 'py_grad': 'BsT'}, 3, (0, 0, 5, 7), 'raises'),
                               ('py with as many symbols as px', {'px_grad': 'BST', 'py_grad': 'BST'}, 3, (0, 0, 5, 7), 'raises'),
                               ('modified with fewer frames than symbols', mod, 3, (0, 0, 5, 4), 'raises')):
        expect(c, 'pruning input', '%s %s' % (q, n), loc, scenario(it, sh, D, {'s_range': sr}, boundary=b), want, n)
    # mask of frames by column 3, filler for padding by column 2
    whole = set()
    for e in it.events:
        for x in list(e.args) + list(dict(e.kw).values()):
            if isinstance(x, T):
                whole |= set(subterms(x))
    for x in whole:
        if x.op in ('lt', 'le') and any(y.op == 'call' and fn_name(y) == 'torch.arange' for a in x.args for y in subterms(a)):
            ks = {column(y) for a in x.args for y in subterms(a)} - {None}
            if ks:
                c.check(ks == {3}, 'pruning padding', q + ' frame mask', loc, 'frames are masked by boundary column(s) %s, not by the number of frames (3)' % sorted(ks))
        if x.op == 'call' and fn_name(x) in ('torch.where', '.where') and len(x.args[1]) >= 2:
            y = x.args[1][-1]
            if y.op == 'call' and fn_name(y) in ('torch.clamp', '.clamp', '.clamp_', 'torch.relu', '.relu', 'torch.clip', '.clip'):
                y = y.args[1][0] if fn_name(y)[0] == 't' else y.args[0].args[0]
            col = lambda z: None if column(z) is None else 'boundary[:,%d]' % column(z)
            ks = {int(a[-2]) for mon in poly(y, col) for a in mon if a.startswith('boundary[:,') and len(mon) == 1}
            c.check(ks == {2}, 'pruning padding', q + ' filler', loc, 'the bound in padding frames is made of boundary column(s) %s, not of the number of symbols (2)' % sorted(ks))
            # (mask, s_begin, padding): frames before the last keep theirs


def losses(c, P, known):
    for q, base in LOSSES.items():
        c.need(q in P.funcs, q + ' is gone')
        fi = P.funcs[q]
        loc = P.loc(fi, fi.node)
        it = analyze(P, q, known=known, inline=inl)
        ps = fi.params()
        has_ret, has_hat = 'return_grad' in ps, 'use_hat_loss' in ps
        red = param('reduction')
        cores = reduction(c, P, it, q, {red}, {'none': (-1, []), 'mean': (-1, ['mean']), 'sum': (-1, ['sum'])})
        c.check(len(set(map(frozenset, cores.values()))) <= 1, 'reduction', q + ' same scores', loc, 'the reductions are of different values')
        # anything else is rejected
        vals = {red: 'average'}
        ok = any(e.kind == 'raise' and len(e.stack) <= 1 and holds([x for x in e.pc if red in subterms(x[0])], vals) is True for e in it.events)
        c.check(ok, 'reduction', q + ' unknown value', loc, 'an unknown reduction is not rejected')
        # what is returned with gradients
        for rg in ((False, True) if has_ret else (False,)):
            for e in returns(it, q):
                m = sigma_terms('regular', True, True, rg)
                if any(truth_under(a, m) not in (None, p) for a, p, k in e.pc):
                    continue
                t = assume(e.args[0], m)
                tup = t.op == 'tuple'
                c.ob('gradients on request', '%s return_grad=%s' % (q, rg))
                if tup != rg:
                    c.bad('gradients on request', '%s return_grad=%s' % (q, rg), loc, 'returns %s' % ('a pair' if tup else 'the loss only'))
                for x in subterms(t):
                    if x.op == 'item' and x.args[0].op == 'call' and 'mutual_information_recursion' in show(x.args[0].args[0]) and is_const(x.args[1]):
                        inloss = x in set(subterms(t.args[0])) if tup else True
                        if cval(x.args[1]) != (0 if inloss else 1):
                            c.bad('gradients on request', '%s return_grad=%s' % (q, rg), loc, 'item %s of (scores, grads) is used as %s' % (cval(x.args[1]), 'the scores' if inloss else 'the gradients'))
        for ty in TYPES:
            for b in (False, True):
                for hat in ((False, True) if has_hat else (None,)):
                    m0, m1 = sigma_terms(ty, b, False, False if has_ret else None, hat), sigma_terms(ty, b, True, False if has_ret else None, hat)
                    a0, a1 = recursion_args(it, m0), recursion_args(it, m1)
                    inst = '%s rnnt_type=%s boundary=%s%s' % (q, ty, b, '' if hat is None else ' hat=%s' % hat)
                    c.ob('delay penalty', inst)
                    if a0 is None or a1 is None:
                        c.bad('delay penalty', inst, loc, 'the recursion is not reached')
                        continue
                    c.check(a1[2] is not None and (a1[2] is param('boundary')), 'boundary reaches the recursion', inst, loc, 'the recursion gets boundary=%s' % (None if a1[2] is None else show(a1[2])[:80]))
                    c.check(same(a0[1], a1[1]), 'delay penalty', inst + ' py', loc, 'py depends on the delay penalty')
                    canon = canon_with(a0[0])
                    memo = {}
                    d = add(poly(a1[0], canon, memo), poly(a0[0], canon, memo), -1)
                    L = atom('boundary[:,3]') if b else (add(atom('T0'), num(1), -1) if ty == 'regular' else atom('T0'))
                    off = mul(add(L, num(1), -1), num('1/2'))
                    want = mul(atom(show(param('delay_penalty'))), add(off, atom('arange(1*T0)'), -1))
                    if d != want:
                        c.bad('delay penalty', inst, loc, 'px must gain delay_penalty * ((L - 1) / 2 - t) = %s; it gains %s' % (show_poly(want), show_poly(d)[:300]))
                    # the log-probs come from the function for this form of the loss
                    if hat is not None:
                        pass
        # with no penalty asked, none is added
        m = sigma_terms('regular', True, False, False if has_ret else None, False if has_hat else None)
    # interpolation weights of the smoothed form sum to one
    q = R + 'get_rnnt_logprobs_smoothed'
    fi = P.funcs[q]
    it = analyze(P, q, known=known, inline=inl)
    for e in returns(it, q):
        m = sigma_terms('modified', False)
        for k in ('lm_only_scale', 'am_only_scale'):
            for z in (0.0, 0):
                m[mk('eq', param(k), const(z))] = False
                m[mk('eq', const(z), param(k))] = False
        t = assume(e.args[0], m)
        if t.op != 'tuple' or len(t.args) != 2:
            continue
        for nm, x in zip(('px', 'py'), t.args):
            sc = [show(param(k)) for k in ('lm_only_scale', 'am_only_scale')]
            p = poly(x)
            # coefficient of every weight in the sum over the interpolated terms, read off per atom
            tot = {}
            for mon, k in p.items():
                w = tuple(sorted(a for a in mon if a in sc))
                rest = tuple(a for a in mon if a not in sc)
                tot.setdefault(rest, {})[w] = tot.get(rest, {}).get(w, 0) + k
            shares = {}
            for rest, ws in tot.items():
                shares.setdefault(tuple(sorted(ws.items())), []).append(rest)
            allw = set()
            for ws in shares:
                allw |= {a for w, _ in ws for a in w}
            c.check(allw == set(sc), 'interpolation', '%s %s uses both scales' % (q, nm), P.loc(fi, fi.node), '%s depends on %s only' % (nm, sorted(allw)))
            # terms seen by all three parts (am or lm logit) must come out with total weight one where shared
            full = [ws for ws in shares if dict(ws).get(()) is not None]
            bad = [ws for ws in shares if any(len(w) > 1 for w, _ in ws) or (
                any(k != -dict(ws)[()] for w, k in ws if w) or dict(ws)[()] not in (1, -1) if () in dict(ws) else len(ws) != 1)]
            c.check(bool(full) and not bad, 'interpolation', '%s %s weights' % (q, nm), P.loc(fi, fi.node), 'the weights of the parts are not 1 - lm_only_scale - am_only_scale, lm_only_scale and am_only_scale: %s' % str(bad)[:200])


# ------------------------------------------------------------- ctc, mwer
def ctc(c, P, known):
    q = 'k2.ctc_loss.CtcLoss.forward'
    c.need(q in P.funcs, q + ' is gone')
    fi = P.funcs[q]
    loc = P.loc(fi, fi.node)
    it = analyze(P, q, known=known, inline=c02.inlined)
    red = {attr(param(fi.params()[0]), x) for x, p in c06held(P, fi, known).items() if p == 'reduction'}
    c.need(red, 'CtcLoss keeps no reduction')
    cores = reduction(c, P, it, q, red, {'none': (-1, []), 'mean': (-1, ['mean']), 'sum': (-1, ['sum'])}, None) if False else {}
    for v in RED:
        c.ob('reduction', '%s reduction=%s' % (q, v))
        for e in returns(it, q):
            if not live(e.pc, red, v):
                continue
            for _, t in alts(red_case(e.args[0], red, v)):
                sign, ops, core = reduced(t)
                div = None
                if core.op == 'op' and core.args[0] in ('Div',):
                    div = unshape(core.args[2])
                    s2, o2, core = reduced(core.args[1])
                    sign *= s2
                    ops = ops + o2
                want = {'none': [], 'mean': ['mean'], 'sum': ['sum']}[v]
                okdiv = (div is param('target_lengths')) if v == 'mean' else div is None
                isscore = core.op == 'call' and fn_name(core) == '.get_tot_scores'
                if sign != -1 or ops != want or not okdiv or not isscore:
                    c.bad('reduction', '%s reduction=%s' % (q, v), loc, 'expected -%s of the total scores%s; found %s%s of %s%s' % (
                        '/'.join(want) or 'value', ' divided by target_lengths' if v == 'mean' else '', '-' if sign < 0 else '', '/'.join(ops) or 'value', show(core)[:80], '' if div is None else ' divided by ' + show(div)[:40]))
    q2 = 'k2.ctc_loss.CtcLoss.__init__'
    itn = analyze(P, q2, known=known, inline=c02.inlined)
    for v in RED + ('average',):
        r = any(e.kind == 'raise' and holds(e.pc, {param('reduction'): v}) is True for e in itn.events)
        c.check(r == (v == 'average'), 'reduction', q2 + ' ' + v, P.loc(P.funcs[q2], P.funcs[q2].node), 'reduction=%r %s' % (v, 'is rejected' if r else 'is accepted'))
    ctc_mask(c, it, q, loc)
    # the penalty of the delay: scores gain -delay_penalty * (frame - duration // 2) outside blanks
    for on in (True, False):
        m = {mk('lt', const(0.0), param('delay_penalty')): on}
        hit = []
        for e in it.events:
            if e.kind == 'setattr' and is_const(e.args[0]) and cval(e.args[0]) == 'scores' and all(truth_under(a, m) in (None, p) for a, p, k in e.pc) and len(e.stack) <= 1:
                hit.append(e)
        c.ob('delay penalty', '%s delay_penalty>0=%s' % (q, on))
        if on != bool(hit):
            c.bad('delay penalty', '%s delay_penalty>0=%s' % (q, on), loc, 'scores are %schanged' % ('' if hit else 'not '))
        for e in hit:
            x = assume(e.args[1], m)
            dp = [t for t in subterms(x) if t is param('delay_penalty')]
            if not dp:
                c.bad('delay penalty', '%s delay_penalty>0=%s' % (q, on), loc, 'the scores do not depend on delay_penalty')
                continue
            p = poly(x)
            dpn = show(param('delay_penalty'))
            gain = {mon: k for mon, k in p.items() if dpn in mon}
            base = {mon: k for mon, k in p.items() if dpn not in mon}
            okay = all(k == 1 for k in base.values()) and len(base) == 1
            if len(gain) == 1:
                (mon, k), = gain.items()
                okay = okay and len(mon) == 2 and (k == -1 if any('alpha=-1' in a for a in mon) else k == 1 if any('alpha=' in a for a in mon) else True)
            halves = [t for t in subterms(x) if t.op == 'op' and len(t.args) == 3 and
                      (t.args[0] == 'RShift' and t.args[2] is const(1) or t.args[0] in ('FloorDiv', 'Div') and is_const(t.args[2]) and cval(t.args[2]) == 2) and 'duration' in show(t.args[1]) or
                      t.op == 'call' and callee(t) in ('torch.div', 'torch.floor_divide', '.div', '.floor_divide', 'torch.bitwise_right_shift') and 'duration' in show(t)]
            c.check(bool(halves), 'delay penalty', q + ' centre', loc, 'the offset of a frame is not taken from the middle of its sequence (duration // 2)')
            c.check(okay, 'delay penalty', q + ' sign', loc, 'the scores must gain -delay_penalty * (frame - duration // 2); they become %s' % show_poly(p)[:300])


def ctc_mask(c, it, q, loc):
    """The penalty is taken off blanks (0), final arcs (-1) and repeats."""
    n = 0
    for e in it.events:
        if e.kind != 'call' or not isinstance(e.res, T) or len(e.stack) > 1:
            continue
        nm = e.fn.args[1] if e.fn.op == 'attr' else fn_name(e.res)
        if nm not in ('masked_fill_', 'masked_fill', 'where', 'torch.where') or 'delay_penalty' not in show(e.res):
            continue
        mask = arg(e, 0, 'mask') if 'masked' in nm else arg(e, 0, 'condition')
        if mask is None:
            continue
        has = [t for t in subterms(mask) if t.op == 'hasattr' and t.args[1] is const('_is_repeat_token_')]
        n += 1
        for case in ((True, False) if has else (None,)):
            m = assume(mask, {has[0]: case}) if has else mask
            for _, m in alts(m):
                ts = list(subterms(m))
                txt = [show(t) for t in ts]
                if any(t.op in ('lt', 'le') for t in ts) or any(x in t for t in txt for x in ('.le(', '.lt(', '.gt(', '.ge(', 'isin(')):
                    continue
                def about(v):
                    return any(re.match(r'\(?%d == .*labels\)?$|.*labels\.eq\(%d\)$|\(?.*labels == %d\)?$' % (v, v, v), t) for t in txt)
                if not any('labels' in t for t in txt):
                    continue
                for v, what in ((0, 'blank arcs'), (-1, 'final arcs')):
                    c.check(about(v), 'delay penalty', '%s mask %d %s' % (q, v, case), e.loc, 'the delay penalty is not taken off %s (label %d)' % (what, v))
                if case is True:
                    c.check(any(t.endswith('._is_repeat_token_') for t in txt), 'delay penalty', q + ' mask repeats', e.loc, 'the delay penalty is not taken off repeated tokens')
    c.need(n, 'no mask of the delay penalty of CtcLoss was found')


def c06held(P, fi, known):
    from options import held
    return held(P, fi.cls, known)


def mwer(c, P, known):
    q = 'k2.mwer_loss.MWERLoss.forward'
    c.need(q in P.funcs, q + ' is gone')
    fi = P.funcs[q]
    loc = P.loc(fi, fi.node)
    it = analyze(P, q, known=known, inline=c02.inlined)
    me = param(fi.params()[0])
    held = c06held(P, fi, known)
    red = {attr(me, x) for x, p in held.items() if p == 'reduction'}
    temp = [attr(me, x) for x, p in held.items() if p == 'temperature']
    c.need(red, 'MWERLoss keeps no reduction')
    vals = {}
    for v in RED:
        c.ob('reduction', '%s reduction=%s' % (q, v))
        for e in returns(it, q):
            if not live(e.pc, red, v):
                continue
            for _, t in alts(red_case(e.args[0], red, v)):
                if v == 'none':
                    if t.op == 'call' and len(t.args[1]) == 2 or t.op == 'new' and len(t.args[1]) == 2:
                        vals[v] = (1, [], t.args[1][1])
                        continue
                    c.bad('reduction', '%s reduction=%s' % (q, v), loc, 'expected the per-path losses as a ragged tensor')
                    continue
                vals[v] = reduced(t)
                if vals[v][:2] != (1, [v]):
                    c.bad('reduction', '%s reduction=%s' % (q, v), loc, 'expected the %s of the per-path losses, found %s%s' % (v, '-' if vals[v][0] < 0 else '', '/'.join(vals[v][1])))
    cores = {x[2] for x in vals.values()}
    for core in cores:
        for t in subterms(core):
            if t.op == 'call' and callee(t) == '.normalize':
                ul = arg(t, 0, 'use_log')
                exps = any(u.op == 'call' and callee(u) in ('.exp', 'torch.exp') and t in subterms(u) for u in subterms(core))
                c.check((ul is const(True)) == exps or ul is None or not is_const(ul), 'risk', q + ' normalised', loc,
                        'log-probabilities of the paths must be normalised as logarithms before exp() and probabilities as they are; found use_log=%s %s exp()' % (show(ul), 'then' if exps else 'without'))
    c.check(len(cores) == 1 and len(vals) == 3, 'reduction', q + ' same values', loc, 'the reductions are of different values')
    for core in cores:
        p = poly(core)
        ok = len(p) == 1
        if ok:
            (mon, k), = p.items()
            err = [a for a in mon if 'get_tot_scores' in a and 'exp' not in a.split('(')[0]]
            ok = k == -1 and len(mon) == 2
        c.check(ok, 'risk', q, loc, 'the loss of a path must be its normalised probability times its number of errors (the negated alignment score); found %s' % show_poly(p)[:200])
    q2 = 'k2.mwer_loss.MWERLoss.__init__'
    itn = analyze(P, q2, known=known, inline=c02.inlined)
    for v in RED + ('average',):
        r = any(e.kind == 'raise' and holds(e.pc, {param('reduction'): v}) is True for e in itn.events)
        c.check(r == (v == 'average'), 'reduction', q2 + ' ' + v, P.loc(P.funcs[q2], P.funcs[q2].node), 'reduction=%r %s' % (v, 'is rejected' if r else 'is accepted'))


def run(c):
    P, known = Program(), load_known()
    rnnt(c, P, known)
    losses(c, P, known)
    recursion_guards(c, P, known)
    pruning_guards(c, P, known)
    ctc(c, P, known)
    mwer(c, P, known)
    c.floor('reduction', 20)
    c.floor('lattice type', 30)
    c.floor('delay penalty', 20)
    c.floor('lengths', 40)
    c.floor('recursion input', 14)
    c.analysed = dict(functions=sorted(LOGPROBS) + sorted(LOSSES))
    c.assumptions = ['torch functions compute what their names say']


TECH = ('abstract interpretation of every loss under every lattice type, boundary and option case; the terms reaching the recursion are compared as polynomials '
        '(penalty, lattice types, interpolation), reductions as (sign, reduction, core), guards by evaluating their conditions on boundary cases')

if __name__ == '__main__':
    harness.main('C18', TECH, run)
