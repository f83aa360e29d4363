#!/usr/bin/env python3
"""C02: an FSA made from other FSAs carries their attributes by the arc maps."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pyutil import *
import harness

# native -> ([(source argument index, argument name, result index of its arc map)], kind, map may contain -1)
T_, R_ = 'tensor', 'ragged'
NATIVES = {
    '_k2.top_sort': ([(0, 'src', 1)], T_, False),
    '_k2.connect': ([(0, 'src', 1)], T_, False),
    '_k2.arc_sort': ([(0, 'src', 1)], T_, False),
    '_k2.add_epsilon_self_loops': ([(0, 'src', 1)], T_, True),
    '_k2.remove_epsilon_self_loops': ([(0, 'src', 1)], T_, True),
    '_k2.reverse': ([(0, 'src', 1)], T_, True),
    '_k2.closure': ([(0, 'src', 1)], T_, True),
    '_k2.union': ([(0, 'fsas', 1)], T_, True),
    '_k2.prune_on_arc_post_double': ([(0, 'fsas', 1)], T_, False),
    '_k2.prune_on_arc_post_float': ([(0, 'fsas', 1)], T_, False),
    '_k2.shortest_path': ([(0, 'fsas', '1.values')], T_, False),
    '_k2.expand_arcs': ([(0, 'fsas', 2)], T_, True),
    '_k2.index': ([(0, 'src', 1)], T_, False),
    '_k2.remove_epsilon': ([(0, 'src', 1)], R_, True),
    '_k2.remove_epsilon_and_add_self_loops': ([(0, 'src', 1)], R_, True),
    '_k2.determinize': ([(0, 'src', 1)], R_, True),
    '_k2.intersect': ([(0, 'a_fsas', 1), (2, 'b_fsas', 2)], T_, True),
    '_k2.intersect_device': ([(0, 'a_fsas', 1), (2, 'b_fsas', 2)], T_, True),
    '_k2.replace_fsa': ([(0, 'src', 1), (1, 'index', 2)], T_, True),
    '_k2.intersect_dense': ([(0, 'a_fsas', 1)], T_, False),
    '_k2.intersect_dense_pruned': ([(0, 'a_fsas', 1)], T_, True),
}
NO = {'k2.fsa.Fsa.properties', 'k2.fsa.Fsa.__setattr__', 'k2.fsa.Fsa.__getattr__', 'k2.fsa.Fsa.to_str', 'k2.utils.to_dot',
      'k2.fsa.Fsa.__delattr__', 'k2.fsa.Fsa.named_tensor_attr', 'k2.fsa.Fsa.named_non_tensor_attr', 'k2.fsa.Fsa.get_filler',
      'k2.ops.index_select', 'k2.fsa.Fsa.device', 'k2.fsa.Fsa.shape', 'k2.fsa.Fsa.requires_grad', 'k2.fsa.Fsa.num_arcs',
      'k2.fsa.Fsa.rename_tensor_attribute_'}


def inlined(q):
    return q not in NO and not q.startswith(('k2.fsa.Fsa.get_', 'k2.fsa.Fsa._get_'))


RAG = ('_k2.ragged.RaggedTensor', 'k2.RaggedTensor', 'k2.ragged.RaggedTensor')
# copies: (method of Fsa) -> how each value is made
RENAMES = {'_k2.ragged.index': 'k2.ragged.index', '_k2.ragged.index_and_sum': 'k2.ragged.index_and_sum'}


def peel(t):
    """Drop wrappers around an iteration over attributes."""
    while t.op == 'call' and callee(t) in ('builtins.list', 'builtins.sorted', 'builtins.tuple', 'builtins.iter', '.copy') or \
            t.op == 'call' and callee(t) == '.items' and t.args[0].args[0].op == 'call' and callee(t.args[0].args[0]) == 'builtins.dict':
        if t.args[0].op == 'attr':
            t = t.args[0].args[0]
            if t.op == 'call' and callee(t) == 'builtins.dict':
                t = t.args[1][0]
        else:
            t = t.args[1][0]
    return t


def source_of(it):
    """(S, 'tensor'|'non', include_scores) when `it` iterates the attributes of S."""
    t = peel(it)
    if t.op == 'call' and t.args[0].op == 'attr':
        S, m = t.args[0].args
        if m == 'named_tensor_attr':
            inc = arg(t, 0, 'include_scores', TRUE)
            return S, 'tensor', not (is_const(inc) and cval(inc) is False)
        if m == 'named_non_tensor_attr':
            return S, 'non', True
        if m == 'items' and S.op == 'attr' and S.args[1] == '_tensor_attr':
            return S.args[0], 'tensor', True
        if m == 'items' and S.op == 'attr' and S.args[1] == '_non_tensor_attr':
            return S.args[0], 'non', True
    return None


def name_elem(n):
    """E when the term n is the name part of an attribute pair E."""
    if n.op == 'item' and n.args[1] is const(0) and n.args[0].op == 'elem':
        return n.args[0]
    return None


class Ev:
    def __init__(self, e, pc):
        self.args, self.loc, self.fn, self.pc = e.args, e.loc, e.fn, pc


def flat(m):
    return strip(m)


def classify(v, E, N, S):
    """Normal form of an attribute value in terms of the pair element E = (N, val)."""
    val = mk('item', E, const(1))
    m = {mk('attrdyn', S, N): val, mk('getattr', S, N): val}
    for d in ('_tensor_attr', '_non_tensor_attr'):
        m[mk('item', attr(S, d), N)] = val
    v = subst(v, m)
    return norm(v, val)


def norm(v, val):
    if v is val:
        return ('same',)
    if v.op == 'call':
        n = callee(v)
        a = v.args[1]
        if n in ('k2.ops.index_select', '_k2.index_select', 'k2.index_select', 'k2.ops._IndexSelectFunction.apply'):
            f = arg(v, 2, 'default_value', const(0))
            return ('select', norm(arg(v, 0, 'src'), val), flat(arg(v, 1, 'index')), f)
        if n == '.index':
            return ('rows', norm(v.args[0].args[0], val), flat(arg(v, 0, 'indexes')), arg(v, 1, 'axis', None))
        if n in ('k2.ragged.index', '_k2.ragged.index'):
            return ('gather', norm(arg(v, 0, 'src'), val), flat(arg(v, 1, 'indexes')), arg(v, 2, 'default_value', const(0)))
        if n in ('k2.ragged.index_and_sum', '_k2.ragged.index_and_sum'):
            return ('sum', norm(arg(v, 0, 'src'), val), flat(arg(v, 1, 'indexes')))
        if n == '.remove_values_eq':
            return ('drop', norm(v.args[0].args[0], val), a[0] if a else arg(v, 0, 'target'))
        if n == '.remove_axis':
            return ('flatten', norm(v.args[0].args[0], val), a[0] if a else None)
        if n in ('.contiguous', '.detach', '.clone', '.to'):
            return norm(v.args[0].args[0], val)
        if n == '.arange':
            return ('slice', norm(v.args[0].args[0], val), arg(v, 1, 'begin'), arg(v, 2, 'end'))
    if v.op == 'item' and v.args[1] is const(0):
        x = norm(v.args[0], val)
        if x[0] == 'rows':
            return x
    if v.op == 'item':
        i = v.args[1]
        if i.op in ('slice', 'call') and show(i).startswith('slice'):
            return ('slice', norm(v.args[0], val), i.args[0], i.args[1])
        return ('select', norm(v.args[0], val), flat(i), const(0))
    if v.op == 'op' and v.args[0] == 'Add':
        return ('add', norm(v.args[1], val), norm(v.args[2], val))
    if v.op == 'phi':
        a, b = norm(v.args[1], val), norm(v.args[2], val)
        if a == b:
            return a
    return ('?', v)


def atoms_of(t, out):
    if t.op in ('not', 'and', 'or'):
        for a in t.args:
            atoms_of(a, out)
    elif t.op == 'phi':
        for a in t.args:
            if a.op in ('phi', 'not', 'and', 'or') or is_boolish(a) or a is t.args[0]:
                atoms_of(a, out)
    elif not is_const(t):
        out.add(t)


def value_conds(v, out):
    for x in subterms(v):
        if x.op == 'phi':
            atoms_of(x.args[0], out)


def main(c):
    P = Program()
    known = load_known()
    c.need('k2.fsa.Fsa' in P.classes, 'class Fsa not found')
    seen_natives = {}
    done = set()
    for q in sorted(P.funcs):
        fi = P.funcs[q]
        if q not in known:
            continue
        it = analyze(P, q, known=known, inline=inlined)
        news = {}
        for e in it.events:
            if e.res is not None and isinstance(e.res, T) and e.res.op == 'new' and e.res.args[0] == 'k2.fsa.Fsa':
                news.setdefault(e.res, e)
        for O, e0 in news.items():
            arcs = O.args[1][0] if O.args[1] else dict(O.args[3 - 1]).get('arcs') if O.args[2] else None
            if arcs is None:
                continue
            for cond, a in alts(arcs):
                judge(c, P, q, fi, it, O, a, e0, dict(cond), seen_natives, done)
    c.analysed['natives'] = {k: sorted(v)[:6] for k, v in sorted(seen_natives.items())}
    for n in NATIVES:
        c.need(n in seen_natives, 'no result FSA built from %s was found' % n)
    for n in ('.clone', '.to', 'same', '.index', '_k2.create_fsa_vec', '_k2.cat', '.decode', '.format_output'):
        c.need(n in seen_natives, 'no result FSA built by %s was found' % n)
    swaps(c, P, known)
    renames(c, P, known)
    expanded(c, P, known)
    selected(c, P, known)
    c.floor('expanded-labels-keep-names', 1)
    returned_maps(c, P, known)
    c.floor('attribute-follows-arc-map', 60)
    c.floor('non-tensor-attribute-carried', 20)
    c.assumptions += ['natives return the arc maps at the positions listed in the table', 'the FSAs given to create_fsa_vec have the same attributes (documented)']


def sources(call, spec):
    n = callee(call)
    out = []
    for i, nm, r in spec[0]:
        a = arg(call, i, nm)
        if a is None:
            for k, v in call.args[2]:
                if k.startswith(nm[:1]) and v.op == 'attr' and v.args[1] == 'arcs':
                    a = v
        if a is None:
            continue
        if r == '1.values':
            m = attr(mk('item', call, const(1)), 'values')
        else:
            m = mk('item', call, const(r))
        out.append((a, m))
    return out


def arcs_owner(a):
    if a.op == 'attr' and a.args[1] == 'arcs':
        return a.args[0]
    return None


def owners(a):
    """FSAs X with a = X.arcs; a phi of arcs comes from a phi of FSAs."""
    o = arcs_owner(a)
    if o is not None:
        return [o]
    return None


def judge(c, P, q, fi, it, O, a, e0, cond, seen, done):
    kind = None
    srcs = None
    if a.op == 'item' and a.args[1] is const(0) and a.args[0].op == 'call':
        call = a.args[0]
        n = callee(call)
        if n in NATIVES:
            seen.setdefault(n, set()).add(q)
            spec = NATIVES[n]
            ss = sources(call, spec)
            if len(ss) != len(spec[0]):
                return
            per = [(x, m) for x, m in ss]
            judge_maps(c, P, q, it, O, per, spec[1], spec[2], e0, n, done, cond)
            return
        if n == '.decode':
            seen.setdefault(n, set()).add(q)
            # decoding graph of the object whose native does the search
            base = call.args[0].args[0]
            me = base.args[0] if base.op == 'attr' else None
            if me is None:
                return
            judge_maps(c, P, q, it, O, [(attr(attr(me, 'decoding_graph'), 'arcs'), mk('item', call, const(1)))], 'tensor', True, e0, n, done, cond)
            return
        if n == '.format_output':
            seen.setdefault(n, set()).add(q)
            judge_streams(c, q, it, O, call, e0)
            return
        if n == '.index' and arcs_owner(call.args[0].args[0]) is not None:
            seen.setdefault(n, set()).add(q)
            S = arcs_owner(call.args[0].args[0])
            start = mk('item', call, const(1))
            judge_copy(c, q, it, O, S, 'slice', start, a, e0, done)
            return
    if a.op == 'call':
        n = callee(a)
        if n in ('.clone', '.to') and arcs_owner(a.args[0].args[0]) is not None:
            seen.setdefault(n, set()).add(q)
            judge_copy(c, q, it, O, arcs_owner(a.args[0].args[0]), 'same', None, a, e0, done)
            return
        if n in ('_k2.create_fsa_vec', '_k2.cat'):
            seen.setdefault(n, set()).add(q)
            judge_cat(c, q, it, O, a, e0, done)
            return
    if arcs_owner(a) is not None:
        seen.setdefault('same', set()).add(q)
        judge_copy(c, q, it, O, arcs_owner(a), 'same', None, a, e0, done)


def set_events(it, O):
    return [(i, e) for i, e in enumerate(it.events) if e.kind == 'setattr' and any(x is O for _, x in alts(e.fn))]


DT = {'int': 'torch.int32', 'f32': 'torch.float32', 'f64': 'torch.float64'}


def atom_truth(a, case, N, val, O, others):
    """Truth of an atom in a value case; None when it is free."""
    t, dt, name, has = case
    if a.op == 'isinstance' and a.args[0] is val:
        k = show(a.args[1])
        if k == 'torch.Tensor' or k == 'torch.tensor.Tensor':
            return t == 'T'
        if k in RAG:
            return t == 'R'
        return None
    if a.op == 'eq':
        x, y = a.args
        for p, r in ((x, y), (y, x)):
            if p is attr(val, 'dtype') and r.op == 'glob':
                return r.args[0] == DT[dt]
            if p is N and is_const(r):
                return cval(r) == name
    if a.op == 'in' and a.args[0] is N:
        es = a.args[1]
        if es.op in ('tuple', 'listv') and all(is_const(x) for x in es.args):
            return any(cval(x) == name for x in es.args)
    if a.op == 'in' and a.args[0] is attr(val, 'dtype') and a.args[1].op in ('tuple', 'listv'):
        return any(x.op == 'glob' and x.args[0] == DT[dt] for x in a.args[1].args)
    if a.op in ('in',) and a.args[0] is N and a.args[1].op == 'attr' and a.args[1].args[1] == '_tensor_attr':
        S = a.args[1].args[0]
        if S in has:
            return has[S]
    if a.op == 'hasattr' and a.args[1] is N:
        if a.args[0] in has:
            return has[a.args[0]]
    return None


SPECIAL_SKIP = ('scores', 'labels')


def special_names(evs, N):
    out = set()
    for e, E in evs:
        ats = set()
        for x in e.pc:
            atoms_of(x[0], ats)
        value_conds(e.args[1], ats)
        for a in ats:
            if a.op == 'eq' and N in a.args:
                o = a.args[0] if a.args[1] is N else a.args[1]
                if is_const(o) and isinstance(cval(o), str):
                    out.add(cval(o))
            if a.op == 'in' and a.args[0] is N and a.args[1].op in ('tuple', 'listv'):
                for o in a.args[1].args:
                    if is_const(o) and isinstance(cval(o), str):
                        out.add(cval(o))
    return sorted(out - set(SPECIAL_SKIP))


def lits(pc):
    out = []
    for x in pc:
        t, p, k = x
        while t.op == 'not':
            t, p = t.args[0], not p
        if t.op == 'and' and p or t.op == 'or' and not p:
            out += lits([(a, p, k) for a in t.args])
        else:
            out.append((t, p, k))
    return out


def local_pc(e, e0, N, val):
    """The conditions of e that are decided after the result FSA was made."""
    base = set((a, p) for a, p, k in lits(e0.pc))
    out = []
    for l in lits(e.pc):
        if (l[0], l[1]) in base:
            continue
        sub = subterms(l[0])
        if l[2] == 'raise' and N not in sub and val not in sub:
            continue
        out.append(l)
    return out


def raising(it, e0, N, val):
    """Conditions under which an attribute of some kind is rejected with an exception."""
    out = []
    for e in it.events:
        if e.kind == 'raise' and any(x[0].op == 'iter' for x in e.pc):
            pc = local_pc(e, e0, N, val)
            if any(N in subterms(x[0]) or val in subterms(x[0]) for x in pc):
                out.append(pc)
    return out


def run_case(evs, case, N, val, O, opts, e0, raises=()):
    """All outcomes of the free atoms: list of (assignment of free atoms, value or None or 'raise')."""
    ats = set()
    evs = [(Ev(e, local_pc(e, e0, N, val)), E) for e, E in evs]
    for e, E in evs:
        for x in e.pc:
            if x[0].op == 'iter':
                continue
            atoms_of(x[0], ats)
        value_conds(e.args[1], ats)
    fixed, free = {}, []
    for a in sorted(ats, key=lambda t: t.id):
        if a.op == 'iter':
            continue
        v = atom_truth(a, case, N, val, O, None)
        if v is None and a in opts:
            v = opts[a]
        if v is None:
            free.append(a)
        else:
            fixed[a] = v
    free = free[:7]
    for r in raises:
        more = set()
        for x in r:
            if x[0].op != 'iter':
                atoms_of(x[0], more)
        for a in more:
            v = atom_truth(a, case, N, val, O, None)
            if v is None and a in opts:
                v = opts[a]
            if v is not None:
                fixed[a] = v
    outs = []
    for vs in itertools.product((True, False), repeat=len(free)):
        m = dict(fixed)
        m.update(zip(free, vs))
        cur = None
        raised = any(all(truth_under(x[0], m) is x[1] for x in r if x[0].op != 'iter') for r in raises)
        if raised:
            outs.append((dict(zip(free, vs)), 'raise'))
            continue
        for e, E in evs:
            ok = True
            for x in e.pc:
                if x[0].op == 'iter':
                    if x[2] == 'loop' and not x[1]:
                        ok = False
                    continue
                t = truth_under(x[0], m)
                if t is not None and t != x[1]:
                    if x[2] == 'raise':
                        raised = True
                    ok = False
                    break
            if ok:
                cur = assume(e.args[1], m)
        if cur is None and raised:
            outs.append((dict(zip(free, vs)), 'raise'))
        else:
            outs.append((dict(zip(free, vs)), cur))
    return outs


def fill_ok(f, S, N, may):
    f = strip(f)
    want = mk('call', attr(S, 'get_filler'), (N,), ())
    if f is want:
        return True
    if f.op == 'call' and callee(f) == 'builtins.getattr' or f.op == 'getattr':
        return True
    return not may


def judge_maps(c, P, q, it, O, per, mkind, may, e0, native, done, cond):
    evs = set_events(it, O)
    # rule numbers: for every source FSA a loop over its attributes
    fsas = []
    for a, m in per:
        o = owners(a)
        if o is None:
            oo = [arcs_owner(x) for _, x in alts(a)]
            if any(x is None for x in oo):
                return
            o = oo
        fsas.append((o, m))
    for k, (ss, m) in enumerate(fsas):
        for S in ss:
            one_source(c, q, it, O, S, m, mkind, may, e0, native, evs, k, [x for j, (y, _) in enumerate(fsas) if j != k for x in y],
                       [mm for j, (_, mm) in enumerate(fsas) if j != k], cond)


def loops_over(evs, S):
    """Assignments made while iterating the attributes of S: [(event, E)]."""
    out, non = [], []
    for i, e in evs:
        E = name_elem(e.args[0])
        if E is None:
            continue
        so = source_of(E.args[0])
        if so is None:
            continue
        X, kind, inc = so
        same = X is S or any(y is S for _, y in alts(X))
        if not same:
            continue
        (out if kind == 'tensor' else non).append((e, E))
    return out, non


def wanted(c, q, S, N, mkind, m, may, val, others, other_maps, native):
    def ok(v, case, free):
        t, dt, name, has = case
        if t == 'R' and dt != 'int':
            return None
        x = v
        if mkind == 'tensor':
            if t == 'T':
                if any(has.get(o) for o in others):
                    # both have it: real valued, summed
                    if x[0] == 'add':
                        parts = [x[1], x[2]]
                        mine = [p for p in parts if p[0] == 'select' and p[1] == ('same',) and p[2] is m and fill_ok(p[3], S, N, may)]
                        rest = [p for p in parts if p not in mine]
                        return len(mine) == 1 and len(rest) == 1 and rest[0][0] == 'select' and rest[0][2] in other_maps and \
                            rest[0][1][0] == '?' and any(rest[0][1][1] in (mk('attrdyn', o, N), mk('getattr', o, N), mk('item', attr(o, '_tensor_attr'), N)) for o in others)
                    return False
                return x[0] == 'select' and x[1] == ('same',) and x[2] is m and fill_ok(x[3], S, N, may)
            return x[0] == 'rows' and x[1] == ('same',) and x[2] is m and (x[3] is None or x[3] is const(0))
        # ragged map
        if t == 'T' and dt == 'int':
            if x[0] == 'drop' and x[1][0] == 'gather':
                f = strip(x[2])
                g = x[1]
                return g[1] == ('same',) and g[2] is m and strip(g[3]) is f and fill_ok(f, S, N, True)
            return x[0] == 'gather' and x[1] == ('same',) and x[2] is m and fill_ok(x[3], S, N, True)
        if t == 'T':
            return x[0] == 'sum' and x[1] == ('same',) and x[2] is m
        if x[0] == 'drop':
            x = x[1]
        return x[0] == 'flatten' and x[1][0] == 'rows' and x[1][1] == ('same',) and x[1][2] is m
    return ok


def one_source(c, q, it, O, S, m, mkind, may, e0, native, evs, k, others, other_maps, cond):
    if any(x.op in ('mu', 'loopval') for o in [S] + others for x in subterms(o)):
        return        # loop-carried operand: the operation is judged where it is defined
    loops, non = loops_over(evs, S)
    who = '%s[%s%s]' % (q, native, '' if not others else ':%s' % 'ab'[k])
    loc = e0.loc
    if not loops:
        c.check(False, 'attribute-follows-arc-map', who, loc,
                'the attributes of %s are not carried over to the result' % show(S)[:120])
    groups = {}
    for e, E in loops:
        groups.setdefault(E, []).append((e, E))
    # arc maps become atoms, so that conditions inside them are not split on
    sub = {}
    sub.update({x: mk('ARCMAP', 100 + i) for i, x in enumerate(other_maps)})
    sub[m] = mk('ARCMAP', k)
    raw = m
    m, other_maps = sub[m], [sub[x] for x in other_maps]
    for E in groups:
        for j, (e, _) in enumerate(groups[E]):
            x = Ev(e, e.pc)
            x.args = [subst(assume(a, cond) if cond else a, sub) for a in e.args]
            groups[E][j] = (x, E)
    # the loop over S decides; when several loops iterate S, together they must cover every case
    cases = []
    names = set()
    for E, evs2 in groups.items():
        names |= set(special_names(evs2, mk('item', E, const(0))))
    for t, dt in (('T', 'int'), ('T', 'f32'), ('T', 'f64'), ('R', 'int')):
        for name in ['some_attribute'] + sorted(names):
            for hv in ([{}] if not others else [{o: True for o in others}, {o: False for o in others}]):
                cases.append((t, dt, name, hv))
    if groups:
        for case in cases:
            t, dt, name, hv = case
            if any(hv.values()) and dt != 'f32':
                continue          # documented: only float32 attributes may clash
            res = []
            for E, evs2 in groups.items():
                N = mk('item', E, const(0))
                val = mk('item', E, const(1))
                has = dict(hv)
                has[S] = True
                # the result has the attribute already iff another, earlier source had it
                has[O] = any(hv.values()) if k > 0 else False
                cs = (t, dt, name, has)
                if k > 0 and any(hv.values()):
                    continue      # judged at the first source
                judge_fn = wanted(c, q, S, N, mkind, m, may, val, others, other_maps, native)
                for free, v in run_case(evs2, cs, N, val, O, cond, e0, raising(it, e0, N, val)):
                    res.append((E, free, v, judge_fn, cs, evs2, N, val))
            label = '%s:%s-%s%s' % (who, {'T': 'tensor', 'R': 'ragged'}[t], dt, '' if name == 'some_attribute' else ':' + name)
            if not res:
                continue
            special(c, q, native, name, O, S, m, it)
            free_ok = True
            for E, free, v, fn, cs, evs2, N, val in res:
                if v == 'raise' or v is None and legit_absent(native, free, name, N, evs, O, t):
                    c.ob('attribute-follows-arc-map', label)
                    continue
                if v is None:
                    if any(r[2] not in (None, 'raise') for r in res if r[0] is not E):
                        continue
                    c.check(False, 'attribute-follows-arc-map', label, loc,
                            'an attribute %sof this kind of %s is not carried over%s' %
                            ('' if name == 'some_attribute' else '%r ' % name, show(S)[:80], when(free)))
                    continue
                x = classify(v, E, N, S)
                r = fn(x, cs, free)
                if r is None:
                    continue
                if x[0] == 'raise':
                    continue
                if not r and native == '_k2.closure' and name == 'aux_labels':
                    # documented: epsilon on the new arcs, not the filler
                    r = x[0] == 'select' and x[1] == ('same',) and x[2] is m
                ev = evs2[-1][0]
                c.check(r, 'attribute-follows-arc-map', label, ev.loc,
                        'the result gets %s instead of the value of %s at the arc map%s' % (pretty(x)[:300], show(S)[:80], when(free)))
            if mkind == 'ragged' and t == 'T' and dt == 'int':
                final_minus_one(c, it, S, label, groups, loc)
    if not non:
        c.check(False, 'non-tensor-attribute-carried', who, loc, 'the non-tensor attributes of %s are not carried over' % show(S)[:120])
    elif True:
        good = False
        for e, E in non:
            N = mk('item', E, const(0))
            x = classify(e.args[1], E, N, S)
            free = [l for l in local_pc(e, e0, N, mk('item', E, const(1))) if l[0].op != 'iter' and l[2] in ('br', 'loop', 'try', 'ret') and
                    not (k > 0 and l[0].op == 'hasattr' and l[0].args[0] is O and l[1] is False) and
                    not (k > 0 and l[0].op == 'in' and l[1] is False and O in subterms(l[0].args[1]))]
            if x == ('same',) and not free:
                good = True
        c.check(good, 'non-tensor-attribute-carried', who, non[0][0].loc,
                'a non-tensor attribute of %s is not carried over unchanged in every case' % show(S)[:120])


def special(c, *a):
    pass


def when(free):
    if not free:
        return ''
    return ' when ' + ' and '.join(('' if p else 'not ') + show(a)[:80] for a, p in free.items())


def pretty(x):
    if isinstance(x, tuple):
        return x[0] + '(' + ', '.join(pretty(y) for y in x[1:]) + ')'
    if isinstance(x, T):
        return show(x)[:140]
    return str(x)


def legit_absent(native, free, name, N, evs, O, t):
    # expand_arcs turns the listed ragged attributes into linear ones, assigned from the native's second result
    if native == '_k2.expand_arcs':
        if name != 'some_attribute' or any(a.op == 'in' and a.args[0] is N and p for a, p in free.items()):
            return any((name == 'some_attribute' or e.args[0] is const(name) or not is_const(e.args[0])) and x.op == 'item' and x.args[1] is const(1) and x.args[0].op == 'call' and callee(x.args[0]) == native
                           for _, e in evs for x in subterms(e.args[1]))
    return False


def final_minus_one(c, it, S, label, groups, loc):
    """Before gathering, -1 on final arcs becomes the filler, so that it is dropped."""
    for E in groups:
        val = mk('item', E, const(1))
        ok = False
        for e in it.events:
            if e.kind == 'setitem' and strip(e.fn) is val:
                idx = subterms(e.args[0])
                f = strip(e.args[1])
                if mk('eq', const(-1), attr(S, 'labels')) in idx or mk('eq', attr(S, 'labels'), const(-1)) in idx:
                    if f is mk('call', attr(S, 'get_filler'), (mk('item', E, const(0)),), ()):
                        ok = True
            # torch.where(cond, filler, value)
        if not ok:
            for x in it.events:
                if x.kind == 'call' and isinstance(x.res, T) and x.res.op == 'call' and callee(x.res) in ('torch.where', '.masked_fill') and val in subterms(x.res) \
                        and (mk('eq', const(-1), attr(S, 'labels')) in subterms(x.res) or mk('eq', attr(S, 'labels'), const(-1)) in subterms(x.res)):
                    ok = True
        c.check(ok, 'final-label-is-not-data', label, loc, 'the -1 that marks final arcs is not replaced by the filler before the values are gathered')


def judge_copy(c, q, it, O, S, how, start, a, e0, done):
    evs = set_events(it, O)
    loops, non = loops_over(evs, S)
    who = '%s[%s]' % (q, how)
    if not loops:
        c.check(False, 'attribute-copied', who, e0.loc, 'the attributes of %s are not copied' % show(S)[:120])
    groups = {}
    for e, E in loops:
        groups.setdefault(E, []).append((e, E))
    for t, dt in (('T', 'int'), ('T', 'f32'), ('R', 'int')):
        for name in ['some_attribute'] + sorted(set(n for E, ev in groups.items() for n in special_names(ev, mk('item', E, const(0))))):
            res = []
            for E, evs2 in groups.items():
                N, val = mk('item', E, const(0)), mk('item', E, const(1))
                for free, v in run_case(evs2, (t, dt, name, {S: True, O: False}), N, val, O, {}, e0):
                    res.append((E, N, free, v, evs2))
            for E, N, free, v, evs2 in res:
                label = '%s:%s-%s%s' % (who, {'T': 'tensor', 'R': 'ragged'}[t], dt, '' if name == 'some_attribute' else ':' + name)
                if v == 'raise':
                    continue
                if v is None:
                    if any(r[3] is not None for r in res if r[0] is not E):
                        continue
                    c.check(False, 'attribute-copied', label, e0.loc, 'an attribute of this kind is not copied' + when(free))
                    continue
                x = classify(v, E, N, S)
                if how == 'same':
                    ok = x == ('same',)
                else:
                    end = None
                    ok = x[0] == 'slice' and x[1] == ('same',) and strip(x[2]) is start and is_end(x[3], start, a)
                c.check(ok, 'attribute-copied', label, evs2[-1][0].loc, 'the copy gets %s' % pretty(x)[:300])
    good = False
    for e, E in non:
        x = classify(e.args[1], E, mk('item', E, const(0)), S)
        free = [l for l in e.pc if l[0].op != 'iter' and l[2] in ('br', 'loop', 'try', 'ret') and mk('item', E, const(0)) in subterms(l[0])]
        if x == ('same',) and not free:
            good = True
    c.check(good, 'non-tensor-attribute-copied', who, e0.loc, 'the non-tensor attributes of %s are not copied in every case' % show(S)[:120])


def is_end(t, start, arcs):
    t = strip(t)
    if t.op == 'op' and t.args[0] == 'Add':
        a, b = t.args[1], t.args[2]
        other = b if a is start else a if b is start else None
        if other is None:
            return False
        vals = mk('call', attr(arcs, 'values'), (), ())
        return other in (mk('item', attr(vals, 'shape'), const(0)), mk('call', attr(arcs, 'num_elements'), (), ()),
                         mk('call', attr(vals, 'size'), (const(0),), ()), mk('call', attr(vals, 'numel'), (), ()),
                         mk('call', glob('builtins.len'), (vals,), ()))
    return False


def base_list(v, it, seen=0):
    """(collection iterated, element term) of a list value, or None."""
    if v.op == 'comp' and v.args[0] == 'list':
        return v.args[2], v.args[1]
    if v.op in ('newlist',):
        # built by append in a loop
        els = [e for e in it.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[0] is v and e.fn.args[1] == 'append']
        if len(els) == 1 and els[0].args:
            lp = [l[0].args[0] for l in els[0].pc if l[0].op == 'iter']
            return (lp[-1] if lp else None), els[0].args[0]
        st = it.final
        c = st.heap.get(('content', v)) if st is not None else None
        if c is not None and c[0] == 'bag' and c[1]:
            x = c[1][-1]
            els = [y for y in subterms(x) if y.op == 'elem']
            return None, x
        return None
    return None


def judge_cat(c, q, it, O, a, e0, done):
    evs = set_events(it, O)
    who = '%s[%s]' % (q, callee(a))
    L = a.args[1][0] if a.args[1] else None
    bl = base_list(L, it) if L is not None else None
    if bl is None:
        if fi_list_dynamic(L):
            return
        return
    elem_arcs = bl[1]
    X = arcs_owner(elem_arcs)
    if X is None or X.op != 'elem':
        c.check(False, 'concatenation-in-order', who, e0.loc, 'the arcs concatenated are %s' % show(elem_arcs)[:200])
        return
    coll = X.args[0]
    cats = []
    for i, e in evs:
        for cond, v in alts(e.args[1]):
            if v.op == 'call' and callee(v) in ('torch.cat', 'k2.ragged.cat', '_k2.ragged.cat', '_k2.ragged.cat'):
                cats.append((e, cond, v))
    kinds = {}
    for e, cond, v in cats:
        n = 'tensor' if callee(v) == 'torch.cat' else 'ragged'
        l2 = base_list(v.args[1][0], it)
        ok = False
        if l2 is not None:
            x = l2[1]
            ok = x in (mk('attrdyn', X, e.args[0]), mk('getattr', X, e.args[0]))
        ax = arg(v, 1, 'axis' if n == 'ragged' else 'dim', const(0))
        free = [l for l in e.pc if l[0].op != 'iter' and l[2] in ('br', 'loop', 'try', 'ret') and e.args[0] in subterms(l[0]) and
                not (l[0].op == 'isinstance')]
        kinds.setdefault(n, []).append(ok and ax is const(0) and not free)
    for n in ('tensor', 'ragged'):
        c.check(any(kinds.get(n, [])), 'concatenation-in-order', who + ':' + n, e0.loc,
                'the %s attributes of the results are not the concatenation, in the order of the arcs, of those of the inputs' % n)
    non = [(e, name_elem(e.args[0])) for i, e in evs if name_elem(e.args[0]) is not None]
    good = False
    for e, E in non:
        so = source_of(E.args[0])
        if so is not None and so[1] == 'non':
            good = True
    c.check(good, 'non-tensor-attribute-carried', who, e0.loc, 'the non-tensor attributes of the inputs are not carried over')


def fi_list_dynamic(L):
    return True


def judge_streams(c, q, it, O, call, e0):
    """Results of several decoding graphs, joined: the value and filler of the attribute at hand."""
    who = '%s[%s]' % (q, callee(call))
    sel = [e for e in it.events if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'call' and
           callee(e.res) in ('k2.ops.index_select', '_k2.index_select', 'k2.ops._IndexSelectFunction.apply')]
    n = 0
    for e in sel:
        v = e.res
        src = arg(v, 0, 'src')
        if src.op not in ('attrdyn', 'getattr'):
            continue
        n += 1
        S, N = src.args[0], src.args[1]
        idx = arg(v, 1, 'index')
        maps = [x for x in subterms(idx) if x.op == 'item' and x.args[1] is const(1) and x.args[0].op == 'call' and callee(x.args[0]) == '.format_output']
        c.check(bool(maps), 'attribute-follows-arc-map', who + ':index', e.loc, 'the attribute is selected by %s, not by the arc map' % show(idx)[:160])
        slices(c, who, e.loc, S, idx)
        f = arg(v, 2, 'default_value', const(0))
        c.check(not stale_loop_value(f, N, it), 'filler-of-this-attribute', who, e.loc,
                'missing arcs get %s, which is not the filler recorded for this attribute' % show(f)[:200])
    rows = [e for e in it.events if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'call' and callee(e.res) == '.index' and
            e.res.args[0].args[0].op in ('attrdyn', 'getattr')]
    for e in rows:
        slices(c, who, e.loc, e.res.args[0].args[0].args[0], arg(e.res, 0, 'indexes', const(0)))
    for e in it.events:
        if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'get_filler':
            nm = arg(e, 0, 'attribute_name')
            E = name_elem(nm) if nm is not None else None
            c.check(E is not None and (source_of(E.args[0]) or (0, 0))[1] != 'non', 'filler-of-this-attribute', who + ':recorded', e.loc,
                    'the filler recorded is that of %s, not of the attribute at hand' % show(nm)[:80])
        if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'call' and callee(e.res) == 'builtins.range' and len(e.stack) <= 1:
            c.check(not all(is_const(a) for a in e.res.args[1]), 'attribute-follows-arc-map', who + ':all-streams', e.loc, 'a fixed number of streams is gone through')
    c.check(bool(n), 'attribute-follows-arc-map', who + ':tensor', e0.loc, 'no tensor attribute is selected by the arc map')
    c.check(bool(rows), 'attribute-follows-arc-map', who + ':ragged', e0.loc, 'no ragged attribute is indexed by the arc map')
    for e in it.events:
        if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'call' and callee(e.res) in ('torch.tensor', 'torch.full') and e.res.args[1]:
            for x in e.res.args[1]:
                if x.op == 'op' and x.args[0] == 'Mult' or callee(e.res) == 'torch.full':
                    fs = [f for y in x.args[1:] for f in it.elements(y, it.final) or []] if x.op == 'op' else [x]
                    for f in fs:
                        c.check(not stale_loop_value(f, None, it), 'filler-of-this-attribute', who + ':fill', e.loc,
                                'a stream without the attribute gets %s, which is not the filler recorded for this attribute' % show(f)[:200])
    evs = set_events(it, O)
    joined = [e for _, e in evs if any(v.op == 'call' and callee(v) in ('torch.cat', 'k2.ragged.cat', '_k2.ragged.cat') for _, v in alts(e.args[1]))]
    kinds = {callee(v) for e in joined for _, v in alts(e.args[1]) if v.op == 'call'}
    c.check('torch.cat' in kinds, 'attribute-follows-arc-map', who + ':joined', e0.loc, 'the tensor attributes of the streams are not joined')
    c.check(len(kinds) >= 2, 'attribute-follows-arc-map', who + ':joined-ragged', e0.loc, 'the ragged attributes of the streams are not joined')
    non = [e for _, e in evs if name_elem(e.args[0]) is not None and (source_of(name_elem(e.args[0]).args[0]) or (0, 0))[1] == 'non']
    for e in non:
        S = source_of(name_elem(e.args[0]).args[0])
        o = S[0] if S else None
        c.check(o is None or not (o.op == 'attr' and o.args[0].op == 'item' and is_const(o.args[0].args[1])), 'non-tensor-attribute-carried', who + ':all-streams', e.loc,
                'the non-tensor attributes carried over are those of one stream only')
    c.check(bool(non), 'non-tensor-attribute-carried', who, e0.loc, 'the non-tensor attributes of the decoding graphs are not carried over')


def slices(c, who, loc, S, idx):
    """The part of the joined arc map taken for a stream begins where the previous stream's ended, and is that stream's."""
    mine = [x for x in subterms(S) if x.op == 'elem']
    for x in subterms(idx):
        if x.op != 'slice':
            continue
        lo, hi = x.args[0], x.args[1]
        c.check(not is_const(lo) and lo is not None, 'attribute-follows-arc-map', who + ':part', loc,
                'the part of the arc map for every stream begins at %s' % show(lo))
        lens = [y for y in subterms(hi) if y.op == 'attr' and y.args[1] == 'num_arcs']
        for y in lens:
            el = [z for z in subterms(y.args[0]) if z.op == 'elem']
            c.check(not el or not mine or any(z in mine for z in el), 'attribute-follows-arc-map', who + ':part-of', loc,
                    'the number of arcs taken is that of %s' % show(y)[-60:])


def stale_loop_value(f, N, it):
    """f is a variable left over from an earlier loop (its last value), not looked up for this attribute."""
    return any(x.op in ('loopval', 'mu') for x in subterms(f)) and not any(
        x.op == 'item' and x.args[1] is const('filler') for x in subterms(f)) or is_const(strip(f))


def swaps(c, P, known):
    """Operations that rename labels: simulate the renames on symbolic attribute slots."""
    for q in ('k2.fsa.Fsa.invert_', 'k2.fsa_algo.compose'):
        fi = P.funcs.get(q)
        c.need(fi is not None, q + ' not found')
        it = analyze(P, q, known=known, inline=inlined)
        loc = P.loc(fi, fi.node)
        ren, cut = [], None
        for e in it.events:
            if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'call' and callee(e.res) in ('_k2.intersect', '_k2.intersect_device'):
                cut = len(ren) if cut is None else cut
            if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'rename_tensor_attribute_':
                ren.append(e)
        c.need(ren, q + ' renames nothing')
        ats = set()
        for e in ren:
            for x in e.pc:
                if x[2] in ('br', 'ret'):
                    atoms_of(x[0], ats)
        ats = [a for a in sorted(ats, key=lambda t: t.id) if a.op in ('is', 'hasattr', 'param', 'op')][:8]
        for vs in itertools.product((True, False), repeat=len(ats)):
            m = dict(zip(ats, vs))
            baux = [v for a, v in m.items() if a.op == 'hasattr' and a.args[0].op == 'param' and a.args[1] is const('aux_labels')]
            inner = [a for a in m if a.op == 'is' and const(None) in a.args]
            if baux and inner and not baux[0] and not m[inner[0]]:
                continue          # rejected by the function (documented)
            regs = {'labels': 'the labels of the operand', 'aux_labels': 'the aux_labels of the operand'}
            mid = None
            for i, e in enumerate(ren):
                if cut is not None and i == cut:
                    mid = dict(regs)
                    regs.pop('labels', None)
                    regs['labels'] = 'the labels both operands share'
                    if baux and baux[0]:
                        regs['aux_labels'] = regs['aux_labels'] + ' + b' if 'aux_labels' in regs else 'the aux_labels of the second operand'
                if any(truth_under(x[0], m) is not None and truth_under(x[0], m) != x[1] for x in e.pc):
                    continue
                a, d = arg(e, 0, 'src_name'), arg(e, 1, 'dest_name')
                if a is None or d is None:
                    continue
                a, d = [cval(x) if is_const(x) else show(x) for x in (a, d)]
                v = regs.pop(a, None)
                regs[d] = v
            name = '%s %s' % (q.rsplit('.', 1)[1], ' '.join(('' if v else 'not ') + show(a)[:60] for a, v in m.items() if a.op != 'op'))
            if q.endswith('invert_'):
                want = {'labels': 'the aux_labels of the operand', 'aux_labels': 'the labels of the operand'}
            else:
                if mid is None:
                    mid = regs
                c.check(mid.get('labels') == 'the aux_labels of the operand', 'labels-exchanged', name + ':match', loc,
                        'the labels matched against the second operand are %s' % mid.get('labels'))
                want = {'labels': 'the labels of the operand',
                        'aux_labels': 'the aux_labels of the second operand' if baux and baux[0] else 'the labels both operands share'}
                if inner and not m[inner[0]]:
                    p = [x for x in inner[0].args if not is_const(x)][0]
                    want[show(p)] = 'the labels both operands share'
            for k, w in want.items():
                c.check(regs.get(k) == w, 'labels-exchanged', name + ':' + k, loc,
                        '%s of the result hold %s, expected %s' % (k, regs.get(k) or 'nothing', w))
    c.floor('labels-exchanged', 5)


def expanded(c, P, known):
    """The label lists expand_arcs returns go with the names in the order the attributes were given to it."""
    for q in sorted(P.funcs):
        if q not in known:
            continue
        it = None
        if not any(isinstance(n, ast.Attribute) and n.attr == 'expand_arcs' for n in ast.walk(P.funcs[q].node)):
            continue
        it = analyze(P, q, known=known, inline=inlined)
        for e in it.events:
            if not (e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'call' and callee(e.res) in ('builtins.zip', 'builtins.enumerate', 'builtins.dict')):
                continue
            lab = [t for a in e.args for t in subterms(a) if t.op == 'item' and t.args[0].op == 'call' and callee(t.args[0]) == '_k2.expand_arcs' and cval(t.args[1]) == 1]
            if not lab:
                continue
            given = arg(lab[0].args[0], 1)
            inside = set(subterms(given))
            c.ob('expanded-labels-keep-names', '%s:%s' % (q, callee(e.res)))
            for a in e.args:
                for _, v in alts(a):
                    for t in [v] + ([v.args[1][0]] if v.op == 'call' and v.args[1] else []):
                        if t.op == 'call' and callee(t) in ('builtins.sorted', 'builtins.reversed', 'builtins.set', 'builtins.frozenset') and t not in inside:
                            c.bad('expanded-labels-keep-names', '%s:%s' % (q, callee(t)), e.loc,
                                  'names and label lists are paired after %s() of one of them, which is not the order the attributes were given to expand_arcs' % callee(t)[9:])


SELECTS = ('k2.ops.index_select', '_k2.index_select', '_k2.ragged.index', 'k2.ops._IndexSelectFunction.apply', '.index', '.index_select', 'torch.index_select')
FRESH = ('.contiguous', '.to', '.clone')


def selected(c, P, known):
    """An attribute given to an FSA by selecting from another FSA's attributes is selected from the attribute of that name, as it is there."""
    n = 0
    for q in sorted(P.funcs):
        if q not in known or q.startswith('k2.fsa.Fsa.'):
            continue
        it = analyze(P, q, known=known, inline=inlined)
        for e in it.events:
            if e.kind != 'setattr' or not isinstance(e.args[0], T) or not is_const(e.args[0]) or not isinstance(e.fn, T) or e.fn.op == 'param':
                continue
            N = cval(e.args[0])
            for cond, v in alts(e.args[1]):
                if v.op == 'item' and is_const(v.args[1]) and cval(v.args[1]) == 0:
                    v = v.args[0]
                if v.op != 'call' or callee(v) not in SELECTS:
                    continue
                S = v.args[0].args[0] if callee(v).startswith('.') else arg(v, 0, 'src')
                for c2, s in alts(S):
                    while s.op == 'call' and callee(s) in FRESH:
                        s = s.args[0].args[0]
                    ats = [x for x in subterms(s) if x.op == 'attr' and x.args[1] in ('scores', 'labels', 'aux_labels')]
                    if not ats or any(x.op == 'call' and callee(x) in ('torch.cat',) for x in subterms(s)):
                        continue
                    n += 1
                    inst = '%s:%s' % (q, N)
                    if s.op == 'attr':
                        if N in ('scores', 'labels', 'aux_labels'):
                            c.check(s.args[1] == N, 'selected-from-its-namesake', inst, e.loc, 'the %s of the result are selected from %s' % (N, show(s)[:80]))
                    elif s.op == 'op':
                        c.bad('selected-from-its-namesake', inst, e.loc, 'the %s of the result are selected from %s, which are no longer those of the source' % (N, show(s)[:100]))
    c.need(n, 'no attribute set by selection was found')


def renames(c, P, known):
    """Renaming an attribute takes everything whose name starts with its name along, and drops what was
    associated with the name it gets (documented for rename_tensor_attribute_)."""
    q = 'k2.fsa.Fsa.rename_tensor_attribute_'
    fi = P.funcs.get(q)
    c.need(fi is not None, q + ' not found')
    it = analyze(P, q, known=known, inline=inlined)
    loc = P.loc(fi, fi.node)
    src, dest = param('src_name'), param('dest_name')

    def prefix(a):
        """Which of the two names this condition says the attribute's name starts with."""
        t = show(a)
        for x in (src, dest):
            s = show(x)
            if t.endswith('.startswith(%s)' % s):
                return x
            if ' == ' in t and s in t and 'slice(None, builtins.len(%s), None)' % s in t:
                return x
        return None
    atoms, moved, dropped = set(), [], []
    for e in it.events:
        if e.kind in ('setitem', 'delitem', 'call') and '_non_tensor_attr' in show(e.fn):
            if e.kind == 'call' and not show(e.fn).endswith('.pop'):
                continue
            for x in e.pc:
                if x[2] in ('br', 'ret'):
                    atoms_of(x[0], atoms)
            for a in e.args:
                for cond, v in alts(a):
                    for t in (k for k, _ in dict(cond).items()) if cond else ():
                        atoms_of(t, atoms)
            (moved if e.kind == 'setitem' else dropped).append(e)
    about = [a for a in atoms if 'elem($self._non_tensor_attr' in show(a)]
    have = {prefix(a) for a in about}
    c.check(bool(moved), 'associated-attributes-renamed', 'moved', loc, 'no non-tensor attribute is given the new name')
    c.check(bool(dropped), 'associated-attributes-renamed', 'dropped', loc, 'no non-tensor attribute of the old name is removed')
    for a in about:
        if prefix(a) is None and ' == ' in show(a) and ('$src_name' in show(a) or '$dest_name' in show(a)):
            c.bad('associated-attributes-renamed', 'narrow:' + ('src' if '$src_name' in show(a) else 'dest'), loc,
                  'only attributes with %s are taken along, not every one whose name starts with the attribute name' % show(a)[:160])
    for e in moved:
        key = [v for _, v in alts(e.args[0])]
        good = any('$dest_name' in show(v) and ('slice(builtins.len($src_name), None, None)' in show(v) or 'replace($src_name, $dest_name' in show(v) or
                                                'removeprefix($src_name)' in show(v)) for v in key)
        c.check(good, 'associated-attributes-renamed', 'new-name', loc, 'the new name of an associated attribute is %s' % ' or '.join(show(v)[:80] for v in key))
    c.analysed['rename conditions'] = sorted(show(a)[:160] for a in about)
    if about and not any(prefix(a) is None for a in about if '$' in show(a).replace('$self', '')):
        for x in (src, dest):
            c.check(x in have, 'associated-attributes-renamed', 'prefix:' + show(x), loc, 'attributes whose names start with %s are not looked for' % show(x))


def returned_maps(c, P, known):
    """When arc maps are asked for, the ones handed out are those the attributes were carried by."""
    n = 0
    for q in sorted(P.funcs):
        fi = P.funcs[q]
        if q not in known or not any(p in ('ret_arc_map', 'ret_arc_maps') for p in fi.params()):
            continue
        it = analyze(P, q, known=known, inline=inlined)
        if it.result is None:
            continue
        p = [p for p in fi.params() if p in ('ret_arc_map', 'ret_arc_maps')][0]
        for val in (True, False):
            r = under(it.result, {p: val})
            for cond, x in alts(r):
                loc = P.loc(fi, fi.node)
                if not val:
                    n += 1
                    c.check(x.op != 'tuple', 'arc-map-returned-on-request', q + ':False', loc, 'a tuple is returned although no arc map was requested')
                    continue
                n += 1
                if x.op != 'tuple' or len(x.args) < 2:
                    c.check(False, 'arc-map-returned-on-request', q + ':True', loc, 'no arc map is returned although it was requested: %s' % show(x)[:160])
                    continue
                O = x.args[0]
                if O.op == 'new' and O.args[1]:
                    for _, a in alts(O.args[1][0]):
                        if a.op == 'item' and a.args[0].op == 'call' and callee(a.args[0]) in NATIVES:
                            spec = NATIVES[callee(a.args[0])]
                            ms = [m for _, m in sources(a.args[0], spec)]
                            if callee(a.args[0]) == '_k2.replace_fsa':
                                ms = ms[::-1]      # documented order: index, then src
                            got = [strip(y) for y in x.args[1:]]
                            c.check(len(got) == len(ms) and all(any(mm is m for _, mm in alts(g)) for g, m in zip(got, ms)), 'arc-map-returned-on-request', q + ':maps', loc,
                                    'the arc maps returned are %s' % [show(y)[:80] for y in got])
                        elif a.op == 'call' and callee(a) == '.clone':
                            c.check(identity_map(x.args[1]), 'arc-map-returned-on-request', q + ':identity', loc,
                                    'a copy is returned with the arc map %s' % show(x.args[1])[:120])
                else:
                    c.check(identity_map(x.args[1]), 'arc-map-returned-on-request', q + ':identity', loc,
                            'the input itself is returned with the arc map %s' % show(x.args[1])[:120])
    c.floor('arc-map-returned-on-request', 12)


def identity_map(t):
    for _, x in alts(t):
        if not (x.op == 'call' and callee(x) == 'torch.arange' and len(x.args[1]) == 1):
            if x.op == 'call' and callee(x) == 'torch.arange' and len(x.args[1]) == 2 and x.args[1][0] is const(0):
                continue
            return False
    return True


if __name__ == '__main__':
    harness.main('C02', 'abstract interpretation of every function that builds an FSA from FSAs: each attribute assignment is '
                 'normalised to (selection, arc map, filler) and compared, case by case of attribute kind, with the rule for the native that made the arcs', main)
