#!/usr/bin/env python3
"""C04: the properties an FSA reports are those of its present arcs; invalid arcs are rejected."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pyutil import *
from evalcond import ev, truth, holds, UNK
import harness

CXX = {'VALID': 'kFsaPropertiesValid', 'NONEMPTY': 'kFsaPropertiesNonempty', 'TOPSORTED': 'kFsaPropertiesTopSorted',
       'TOPSORTED_AND_ACYCLIC': 'kFsaPropertiesTopSortedAndAcyclic', 'ARC_SORTED': 'kFsaPropertiesArcSorted',
       'ARC_SORTED_AND_DETERMINISTIC': 'kFsaPropertiesArcSortedAndDeterministic', 'EPSILON_FREE': 'kFsaPropertiesEpsilonFree',
       'ACCESSIBLE': 'kFsaPropertiesMaybeAccessible', 'COACCESSIBLE': 'kFsaPropertiesMaybeCoaccessible', 'ALL': 'kFsaAllProperties'}
# operations that hand back their input: the properties that make that right
IDENTITY = {'k2.fsa_algo.connect': ('fsa', ['ACCESSIBLE', 'COACCESSIBLE']),
            'k2.fsa_algo.arc_sort': ('fsa', ['ARC_SORTED']),
            'k2.fsa_algo.determinize': ('fsa', ['ARC_SORTED_AND_DETERMINISTIC'])}
# operations on FSAs that need a property: (operand, property, {condition terms})
REQUIRE = {'k2.fsa_algo.intersect': [('a_fsa', 'ARC_SORTED'), ('b_fsa', 'ARC_SORTED')],
           'k2.fsa_algo.compose': [('b_fsa', 'ARC_SORTED')]}
BASIC = {2: '_k2.get_fsa_basic_properties', 3: '_k2.get_fsa_vec_basic_properties'}
DEMANDING = {'.get_forward_scores'}


def arcs_of(t):
    """X when t is X.arcs (possibly through a copy with the same arcs)."""
    while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('clone', 'to', 'contiguous'):
        t = t.args[0].args[0]
    if t.op == 'attr' and t.args[1] == 'arcs':
        return t.args[0]
    return None


def base_values(t):
    """X when t is (a view of) the arc table X.arcs.values()."""
    while True:
        if t.op in ('item', 'elem'):
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('view', 't', 'reshape', 'detach', 'transpose'):
            t = t.args[0].args[0]
        elif t.op == 'call' and callee(t) == '_k2.fsa_to_tensor' and t.args[1]:
            return arcs_of(t.args[1][0])
        else:
            break
    if t.op == 'call' and callee(t) == '.values':
        return arcs_of(t.args[0].args[0])
    return None


def label_write(e):
    """X when the event changes labels (or states) of the arcs of X."""
    if e.kind in ('setitem', 'inplace'):
        t = e.fn if e.kind == 'setitem' else e.args[0]
        X = base_values(t)
        if X is None:
            if e.kind == 'setitem' and t.op == 'attr' and t.args[1] == 'labels':
                return t.args[0]
            if e.kind == 'inplace' and t.op == 'attr' and t.args[1] == 'labels':
                return t.args[0]
            return None
        idx = e.args[0] if e.kind == 'setitem' else (t.args[1] if t.op == 'item' else None)
        if idx is not None and idx.op == 'tuple' and len(idx.args) == 2 and idx.args[1] in (const(-1), const(3)):
            return None             # the score column
        return X
    if e.kind == 'call' and e.fn is glob('_k2.fix_final_labels'):
        lab = arg(e, 1, 'labels')
        if lab is None or lab is NONE:
            return arcs_of(arg(e, 0, 'fsas'))
    return None


def implied(pc, by):
    """Every literal of pc that is a branch holds on the path `by`."""
    have = {(a, p) for a, p, k in by}
    return all((a, p) in have for a, p, k in pc if k in ('br', 'loop', 'try', 'ret'))


def main(c):
    P = Program()
    known = load_known()
    c.need('k2.fsa.Fsa' in P.classes, 'class Fsa not found')
    bits = {}
    for n in CXX:
        v = Interp(P, known=known).global_value('k2.fsa_properties.' + n)
        c.need(is_const(v), 'fsa_properties.%s not found' % n)
        bits[n] = cval(v)
    constants(c, P, bits)
    getter(c, P, known, bits)
    ctor(c, P, known, bits)
    typestate(c, P, known)
    rejected(c, P, known)
    handed_over(c, P, known)
    identity(c, P, known, bits)
    required(c, P, known, bits)


def constants(c, P, bits):
    src = open(REPO + '/k2/csrc/fsa.h', encoding='utf-8').read()
    src = re.sub(r'//[^\n]*', '', src)
    vals = {n: int(v, 0) for n, v in re.findall(r'(kFsa\w+)\s*=\s*(0[xX][0-9a-fA-F]+|\d+)', src)}
    for p, x in CXX.items():
        c.check(vals.get(x) == bits[p], 'same-bit-on-both-sides', p, 'k2/python/k2/fsa_properties.py:1',
                '%s is %#x in Python but %s is %s in C++' % (p, bits[p], x, vals.get(x)))
    single = [v for n, v in bits.items() if n != 'ALL']
    c.check(len(set(single)) == len(single) and sum(single) == bits['ALL'] and all(v & (v - 1) == 0 and v for v in single),
            'one-bit-per-property', 'fsa_properties', 'k2/python/k2/fsa_properties.py:1', 'the property constants are not distinct single bits that make up ALL')


def run(P, known, q, inl, env=None, pre=()):
    fi = P.funcs[q]
    it = Interp(P, inline=inl, known=known, watch_attrs=('properties',))
    return fi, it


def getter(c, P, known, bits):
    q = 'k2.fsa.Fsa.properties'
    fi = P.funcs.get(q)
    c.need(fi is not None, q + ' not found')
    it = analyze(P, q, known=known)
    loc = P.loc(fi, fi.node)
    me = param('self')
    remembered = attr(me, '_properties')
    arcs = attr(me, 'arcs')
    nax = mk('call', attr(arcs, 'num_axes'), (), ())
    empty = {mk('is', remembered, NONE): True}
    # (1) nothing remembered: the native for the number of axes is asked about these very arcs
    for n, nat in BASIC.items():
        m = dict(empty)
        m[nax] = n
        m[remembered] = None
        r = resolve(it.result, m)
        c.check(r is mk('call', glob(nat), (arcs,), ()), 'properties-of-these-arcs', '%d axes' % n, loc,
                'the properties of an FSA with %d axes are taken from %s' % (n, show(r)[:160]))
        st = [e for e in it.events if e.kind == 'setattr' and e.args[0] is const('_properties') and e.fn is me and holds(e.pc, m) is not False]
        c.check(bool(st) and resolve(st[-1].args[1], m) is r, 'properties-of-these-arcs', '%d axes:remembered' % n, loc,
                'the properties remembered are not the ones computed')
        vs = [e for e in it.events if e.kind == 'setattr' and e.args[0] is const('labels_version') and e.fn is me and holds(e.pc, m) is not False]
        c.check(bool(vs) and resolve(vs[-1].args[1], m) in (attr(attr(me, 'labels'), '_version'), ), 'label-version-recorded', '%d axes' % n, loc,
                'the version of the labels the properties belong to is not recorded')
        # (2) every properties value without VALID raises
        for p in range(0, bits['ALL'] + 1):
            mm = dict(m)
            for nn, nt in BASIC.items():
                mm[mk('call', glob(nt), (arcs,), ())] = p
            hit = any(e.kind == 'raise' and holds(e.pc, mm) is True for e in it.events)
            ok = hit == (not p & bits['VALID'])
            c.ob('invalid-is-rejected', '%d axes:%#x' % (n, p))
            if not ok:
                c.bad('invalid-is-rejected', '%d axes' % n, loc, 'an FSA whose properties are %#x is %s' % (p, 'rejected' if hit else 'accepted'))
                break
    # (3) remembered: returned as they are unless the labels were changed behind the back
    for p in (0, bits['VALID'], bits['ALL']):
        for same in (True, False):
            m = {remembered: p, mk('is', remembered, NONE): False,
                 mk('eq', attr(attr(me, 'labels'), '_version'), attr(me, 'labels_version')): same,
                 mk('eq', attr(me, 'labels_version'), attr(attr(me, 'labels'), '_version')): same}
            hit = any(e.kind == 'raise' and holds(e.pc, m) is True for e in it.events)
            c.check(hit == (not same), 'stale-labels-detected', 'p=%#x same=%s' % (p, same), loc,
                    'with labels %s since the properties were computed, the query %s' % ('unchanged' if same else 'changed', 'raises' if hit else 'answers'))
            if same and not hit:
                r = resolve(it.result, m)
                c.check(ev(r, m) == p, 'properties-of-these-arcs', 'remembered %#x' % p, loc, 'remembered properties %#x are answered as %s' % (p, show(r)[:120]))


def resolve(t, m):
    """Follow the phis of t that m decides."""
    while t.op == 'phi':
        v = truth(t.args[0], m)
        if v is UNK:
            return t
        t = t.args[1] if v else t.args[2]
    return t


def ctor(c, P, known, bits):
    q = 'k2.fsa.Fsa.__init__'
    fi = P.funcs.get(q)
    c.need(fi is not None, q + ' not found')
    it = Interp(P, known=known, watch_attrs=('properties',))
    it.run(q)
    loc = P.loc(fi, fi.node)
    me = param('self')
    reads = [(i, e) for i, e in enumerate(it.events) if e.kind == 'getattr' and e.fn is me]
    sets = [(i, e) for i, e in enumerate(it.events) if e.kind == 'setattr' and e.fn is me and e.args[0] is const('_properties')]
    arcs = [(i, e) for i, e in enumerate(it.events) if e.kind == 'setattr' and e.fn is me and e.args[0] is const('arcs')]
    c.check(any(not e.cond(('br', 'ret', 'loop', 'try')) and all(i > j for j, _ in sets + arcs) for i, e in reads), 'new-fsa-is-validated', 'Fsa()', loc,
            'a new FSA does not compute (and check) its properties on every path')
    c.check(bool(sets) and all(set(deps(e.args[1])) <= {'properties'} and e.args[1] in (param('properties'), NONE) for _, e in sets), 'new-fsa-is-validated', 'Fsa():given', loc,
            'a new FSA starts with the properties %s' % [show(e.args[1]) for _, e in sets])


def typestate(c, P, known):
    """labels written -> properties forgotten -> properties computed again (which validates), before anybody can ask."""
    n = 0
    jobs = []
    for q in sorted(P.funcs):
        if q not in known or q == 'k2.fsa.Fsa.__init__':
            continue
        it = Interp(P, known=known, watch_attrs=('properties',))
        it.run(q)
        jobs.append((q, it))
    for q, it in jobs:
        fi = P.funcs[q]
        c.ob('label-writes-found', q)
        if it.events is None:
            continue
        for i, w in enumerate(it.events):
            X = label_write(w)
            if X is None or X.op == 'new' and False:
                continue
            n += 1
            later = it.events[i + 1:]
            reset = [(j, e) for j, e in enumerate(later) if e.kind == 'setattr' and e.args[0] is const('_properties') and e.fn is X and
                     e.args[1] is NONE and implied(e.pc, w.pc)]
            c.check(bool(reset), 'label-change-forgets-properties', '%s:%s' % (q, what(w)), w.loc,
                    'the labels of %s are changed here, but the properties remembered for it are not forgotten on every path that follows' % show(X)[:80])
            if reset:
                j = reset[0][0]
                again = [e for e in later[j + 1:] if e.kind == 'getattr' and e.fn is X and implied(e.pc, w.pc)]
                again += [e for e in later[j + 1:] if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0] in BASIC.values() and implied(e.pc, w.pc)]
                c.check(bool(again), 'label-change-revalidates', '%s:%s' % (q, what(w)), w.loc,
                        'after the labels of %s are changed its validity is not checked again' % show(X)[:80])
            # final arcs: a raw copy of labels must be repaired
            if w.kind == 'setitem':
                fix = [e for e in later if e.kind == 'call' and e.fn is glob('_k2.fix_final_labels') and arcs_of(arg(e, 0, 'fsas')) is X and implied(e.pc, w.pc)]
                okfix = fix and (not reset or later.index(fix[0]) < reset[-1][0])
                c.check(bool(okfix), 'final-labels-repaired', '%s:%s' % (q, what(w)), w.loc,
                        'the labels of %s are assigned without making -1 appear exactly on final arcs before validation' % show(X)[:80])
    # renaming something to labels goes through the assignment
    c.need(n >= 3, 'fewer than 3 places that change labels were found')
    # assigning labels reaches the arcs
    sa = P.funcs.get('k2.fsa.Fsa.__setattr__')
    c.need(sa is not None, 'Fsa.__setattr__ not found')
    it = Interp(P, known=known, watch_attrs=('properties',), inline=lambda q: False)
    ps = sa.params()
    me, v = param(ps[0]), param(ps[2])
    it.types[me] = 'k2.fsa.Fsa'
    st = State({ps[0]: me, ps[1]: const('labels'), ps[2]: v}, {}, ((mk('isinstance', v, glob('torch.Tensor')), True, 'assume'),))
    it.call_body(sa, st)
    w = [e for e in it.events if label_write(e) is me and e.kind == 'setitem' and not e.cond(('br', 'ret', 'loop', 'try'))]
    w = [e for e in w if e.args[0].op == 'tuple' and e.args[0].args[1] is const(2) and strip(e.args[1]) is v]
    c.check(bool(w), 'label-assignment-reaches-arcs', 'labels', P.loc(sa, sa.node),
            'assigning labels does not store the new values in the label column of the arcs on every path')
    keep = [e for e in it.events if e.kind == 'setitem' and e.fn is attr(me, '_tensor_attr') and e.args[0] is const('labels')]
    c.check(not keep, 'label-assignment-reaches-arcs', 'labels:view', P.loc(sa, sa.node), 'assigning labels detaches the labels attribute from the arcs')


def rejected(c, P, known):
    """Every rejection of an assignment comes before the first write."""
    for q in ('k2.fsa.Fsa.__setattr__', 'k2.fsa.Fsa.__delattr__', 'k2.fsa.Fsa.rename_tensor_attribute_', 'k2.fsa.Fsa.set_scores_stochastic_',
              'k2.fsa.Fsa.convert_attr_to_ragged_', 'k2.fsa.Fsa.invert_'):
        fi = P.funcs.get(q)
        c.need(fi is not None, q + ' not found')
        it = analyze(P, q, known=known)
        me = param('self')
        ws = []
        for e in it.events:
            wr = e.kind in ('setitem', 'delitem', 'setattr', 'delattr', 'inplace') or \
                e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[0] is me and e.fn.args[1].endswith('_') and not e.fn.args[1].startswith('_')
            if wr:
                ws.append(e)
            if e.kind != 'raise' or any(k == 'try' for _, _, k in e.pc):
                continue
            c.ob('rejected-assignment-changes-nothing', '%s:%s' % (q, e.loc))
            for w in ws:
                have = {(a, p) for a, p, k in lits_(e.pc)}
                if any((a, not p) in have for a, p, k in lits_(w.pc)):
                    continue
                c.bad('rejected-assignment-changes-nothing', q, e.loc, 'the operation may be rejected here after it has already changed the FSA at %s' % w.loc)
                break


def lits_(pc):
    out = []
    for x in pc:
        t, p, k = x
        while t.op == 'not':
            t, p = t.args[0], not p
        if t.op == 'and' and p or t.op == 'or' and not p:
            out += lits_([(a, p, k) for a in t.args])
        else:
            out.append((t, p, k))
    return out


def what(w):
    return 'native' if w.kind == 'call' else w.kind


def handed_over(c, P, known):
    n = 0
    for q in sorted(P.funcs):
        if q not in known:
            continue
        it = Interp(P, known=known)
        it.run(q)
        for e in it.events:
            # properties given to a new FSA
            if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'new' and e.res.args[0] == 'k2.fsa.Fsa':
                p = arg(e, 2, 'properties')
                if p is None:
                    continue
                n += 1
                a = arg(e, 0, 'arcs')
                for cond, x in alts(a):
                    for _, y in alts(p):
                        if y is NONE:
                            continue
                        ok = y.op == 'attr' and y.args[1] in ('properties', '_properties') and arcs_of(x) is not None and y.args[0] is arcs_of(x)
                        c.check(ok, 'properties-travel-with-their-arcs', '%s:new' % q, e.loc,
                                'an FSA over %s is given the properties %s' % (show(x)[:100], show(y)[:100]))
            # natives that are told the properties of their operand
            if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0].startswith('_k2.'):
                allargs = list(e.args) + [v for _, v in sorted(e.kw.items())]
                ps = [(i, x) for i, x in enumerate(e.args) if x.op == 'attr' and x.args[1] in ('properties', '_properties')]
                for i, x in ps:
                    if e.fn.args[0].endswith('properties_as_str'):
                        continue
                    n += 1
                    prev = e.args[i - 1] if i else None
                    ok = prev is not None and arcs_of(prev) is x.args[0]
                    c.check(ok, 'properties-travel-with-their-arcs', '%s:%s' % (q, e.fn.args[0]), e.loc,
                            '%s is told the properties of %s for the arcs %s' % (e.fn.args[0], show(x.args[0])[:60], show(prev)[:80] if prev is not None else None))
                for k, x in e.kw.items():
                    if x.op == 'attr' and x.args[1] in ('properties', '_properties') and not e.fn.args[0].endswith('properties_as_str'):
                        n += 1
                        own = [y for y in allargs if arcs_of(y) is x.args[0]]
                        c.check(bool(own), 'properties-travel-with-their-arcs', '%s:%s' % (q, e.fn.args[0]), e.loc,
                                '%s is told the properties of %s, whose arcs it is not given' % (e.fn.args[0], show(x.args[0])[:60]))
            # raw writes of remembered properties
            if e.kind == 'setattr' and e.args[0] is const('_properties') and q not in ('k2.fsa.Fsa.properties', 'k2.fsa.Fsa.__init__'):
                n += 1
                v = e.args[1]
                ok = v is NONE or (v.op == 'call' and callee(v) in BASIC.values() and arcs_of(v.args[1][0]) is e.fn)
                c.check(ok, 'properties-travel-with-their-arcs', '%s:raw' % q, e.loc, 'the properties %s are recorded for %s' % (show(v)[:80], show(e.fn)[:60]))
    c.floor('properties-travel-with-their-arcs', 6)


def mentions(t, X):
    return attr(X, 'properties') in subterms(t)


def identity(c, P, known, bits):
    for q, (pn, need) in sorted(IDENTITY.items()):
        fi = P.funcs.get(q)
        c.need(fi is not None, q + ' not found')
        it = analyze(P, q, known=known)
        c.need(it.result is not None, q + ' never returns')
        X = param(pn)
        loc = P.loc(fi, fi.node)
        shared = 0
        for p in range(bits['ALL'] + 1):
            m = {attr(X, 'properties'): p}
            outs = reach(it.result, m)
            same = any(o is X or (o.op == 'tuple' and o.args and o.args[0] is X) for o in outs)
            shared += same
            lacking = [b for b in need if not p & bits[b]]
            c.ob('input-returned-only-if-already-so', '%s:%#x' % (q, p))
            if same and lacking:
                c.bad('input-returned-only-if-already-so', q, loc,
                      'the input itself is returned although it is not %s (properties %#x)' % (', '.join(lacking), p))
                break
        c.analysed.setdefault('identity', {})[q] = shared
    q = 'k2.fsa_algo.remove_epsilon_and_add_self_loops'
    fi = P.funcs.get(q)
    c.need(fi is not None, q + ' not found')
    it = analyze(P, q, known=known)
    for p in range(bits['ALL'] + 1):
        outs = reach(it.result, {attr(param('fsa'), 'properties'): p})
        direct = any(any(x.op == 'call' and callee(x) in ('k2.fsa_algo.add_epsilon_self_loops', '_k2.add_epsilon_self_loops') for x in subterms(o)) and
                     not any(x.op == 'call' and 'remove_epsilon' in callee(x) for x in subterms(o)) for o in outs)
        c.ob('input-returned-only-if-already-so', '%s:%#x' % (q, p))
        if direct and not p & bits['EPSILON_FREE']:
            c.bad('input-returned-only-if-already-so', q, P.loc(fi, fi.node), 'epsilon arcs are kept although the input is not epsilon free')
            break


def reach(t, m):
    if t.op == 'phi':
        v = truth(t.args[0], m)
        if v is UNK:
            return reach(t.args[1], m) + reach(t.args[2], m)
        return reach(t.args[1] if v else t.args[2], m)
    return [t]


def required(c, P, known, bits):
    for q, reqs in sorted(REQUIRE.items()):
        fi = P.funcs.get(q)
        c.need(fi is not None, q + ' not found')
        it = analyze(P, q, known=known)
        cpu = [x for e in it.events for l in e.pc for x in subterms(l[0]) if x.op == 'call' and callee(x) == '.is_cpu']
        cpu += [x for e in it.events for l in e.pc for x in subterms(l[0]) if x.op == 'eq' and 'cpu' in show(x)]
        for pn, b in reqs:
            X = param(pn)
            for p in range(bits['ALL'] + 1):
                if p & bits[b]:
                    continue
                m = {attr(X, 'properties'): p}
                # other operand fine, on the CPU
                for pn2, b2 in reqs:
                    if pn2 != pn:
                        m[attr(param(pn2), 'properties')] = bits['ALL']
                for x in cpu:
                    m[x] = True
                m[param('treat_epsilons_specially')] = True
                # an unknown `try` or type test is taken to be fine
                hit = False
                for e in it.events:
                    if e.kind != 'raise':
                        continue
                    pc = [l for l in e.pc if not (l[2] == 'raise')]
                    if any(mentions(l[0], X) for l in pc) and holds(pc, m) is True:
                        hit = True
                c.ob('unsorted-operand-is-rejected', '%s:%s:%#x' % (q, pn, p))
                if not hit:
                    c.bad('unsorted-operand-is-rejected', '%s:%s' % (q, pn), P.loc(fi, fi.node),
                          '%s without %s is accepted on the CPU (properties %#x)' % (pn, b, p))
                    break


if __name__ == '__main__':
    harness.main('C04', 'typestate of FSA labels and remembered properties over all functions of the package, and evaluation of every '
                 'property-dependent branch under all 512 property values', main)
