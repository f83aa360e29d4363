#!/usr/bin/env python3
"""C03: remembered derived quantities of an FSA are never stale or mixed up."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pyutil import *
import harness

# natives whose result depends on the topology of the FSA only, not on scores
TOPOLOGY = {'_k2.get_state_batches', '_k2.get_dest_states', '_k2.get_incoming_arcs',
            '_k2.get_entering_arc_index_batches', '_k2.get_leaving_arc_index_batches'}
# option a remembered value may ignore: (key, option) with the reason
IGNORES = {('entering_arcs', 'use_double_scores'):
           'index of the best entering arc: both precisions give the same kind of int32 index'}


def cache_owner(t):
    """X if t denotes X._cache."""
    if t.op == 'attr' and t.args[1] == '_cache':
        return t.args[0]
    return None


def main(c):
    P = Program()
    known = load_known()
    fsa = P.classes.get('k2.fsa.Fsa')
    c.need(fsa is not None, 'class Fsa not found')
    its = {}
    for q, fi in sorted(P.funcs.items()):
        its[q] = analyze(P, q, known=known)
    c.analysed['functions'] = len(its)
    c.analysed['events'] = sum(len(i.events) for i in its.values())

    # ---- collect the writes into remembered values
    writes = []
    for q, it in its.items():
        fi = P.funcs[q]
        helper = q not in known           # seen through its callers
        if helper:
            continue
        for e in it.events:
            if e.kind == 'setitem' and cache_owner(e.fn) is not None:
                writes.append((q, fi, e, cache_owner(e.fn), e.args[0], e.args[1]))
            elif e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] in ('setdefault', 'update') and cache_owner(e.fn.args[0]) is not None:
                o = cache_owner(e.fn.args[0])
                if e.fn.args[1] == 'setdefault':
                    writes.append((q, fi, e, o, e.args[0], e.args[1]))
                else:
                    src = e.args[0] if e.args else NONE
                    writes.append((q, fi, e, o, mk('all', src), mk('all', src)))
            elif e.kind == 'setattr' and e.args[0] is const('_cache'):
                writes.append((q, fi, e, e.fn, mk('whole'), e.args[1]))
    c.need(len(writes) >= 8, 'fewer than 8 writes of remembered values found')

    own = []
    for q, fi, e, owner, K, V in writes:
        self_t = param(fi.params()[0]) if fi.cls is not None and fi.params() else None
        if owner is self_t and K.op not in ('whole', 'all'):
            own.append((q, fi, e, K, V))
            continue
        if K.op == 'whole':
            # fresh dictionary: allowed (empty, or a filtered one, judged below)
            fresh = V.op in ('newdict',) or (V.op == 'comp') or (V.op == 'call' and callee(V) in ('builtins.dict', '.copy'))
            c.check(fresh, 'no-shared-memory-of-results', q, e.loc,
                    'the table of remembered values of one FSA is replaced by %s' % show(V))
            if owner is self_t or not calls_in(V) and V.op == 'newdict':
                continue
            V = V.args[1][0] if V.op == 'call' and V.args[1] else V
        # copying remembered values into another FSA: it must have the same arcs
        ok = owner.op == 'new' and owner.args[1] and P.classes.get(owner.args[0]) is fsa and \
            owner.args[1][0] in (attr(self_t, 'arcs'), mk('call', attr(attr(self_t, 'arcs'), 'clone'), (), ()))
        c.check(ok, 'copied-results-need-same-arcs', q, e.loc,
                'remembered values are given to %s, whose arcs are not a plain copy of the ones they were computed from'
                % show(owner)[:120])
        srcs = [x for x in subterms(V) if x.op == 'attr' and x.args[1] == '_cache']
        c.check(all(x.args[0] is self_t for x in srcs) and srcs, 'copied-results-come-from-self', q, e.loc,
                'the value remembered under %s is %s' % (show(K)[:80], show(V)[:120]))
        if K.op not in ('whole', 'all'):
            same = K.op == 'item' and V.op == 'item' and K.args[0] is V.args[0] and K.args[1] is const(0) and V.args[1] is const(1) or \
                (V.op == 'item' and cache_owner(V.args[0]) is self_t and V.args[1] is K) or \
                (K.op == 'tuple' and False)
            if K.op == 'elem' and V.op == 'item':
                same = V.args[1] is K
            c.check(same, 'copied-results-keep-their-key', q, e.loc,
                    'value %s is remembered under key %s' % (show(V)[:100], show(K)[:100]))

    c.need(len(own) >= 8, 'fewer than 8 own writes of remembered values found')

    # ---- which methods are topology only (fixpoint over return terms)
    def natives(t, seen):
        out = set()
        for x in calls_in(t):
            n = callee(x)
            if n.startswith('_k2.'):
                out.add(n)
            elif n.startswith('.') and n[1:] in fsa.methods:
                m = fsa.methods[n[1:]].qual
                if m not in seen and its[m].result is not None:
                    out |= natives(its[m].result, seen | {m})
        # a read of a remembered value: what was stored there
        return out

    # ---- rule: key is a static string that encodes every option
    keyinfo = {}      # key -> list of (q, sigma, V)
    for q, fi, e, K, V in own:
        bps = [p for p in bool_params(fi)]
        if not bps:
            bps = sorted(p for p in deps(K) | deps(V) if p in fi.params()[1:])
        sig = [s for s in assignments(bps) if pc_under(e.pc, s)]
        keys = {}
        for s in sig:
            k, v = under(K, s), under(V, s)
            ks = [x for _, x in alts(k)]
            for x in ks:
                if not (is_const(x) and isinstance(cval(x), str)):
                    c.bad('remembered-under-static-key', q, e.loc, 'key %s is not determined by the options' % show(x)[:200])
                    continue
                keys[tuple(sorted(s.items()))] = cval(x)
                keyinfo.setdefault(cval(x), []).append((q, s, v, e.loc))
            c.ob('remembered-under-static-key', q + str(s))
        # injective in each option the value depends on
        vdeps = {p for p in bps if any(under(V, {p: True}) is not under(V, {p: False}) for _ in (0,))}
        vdeps |= {p for p in bps if param(p) in subterms(V)}
        for s in sig:
            for p in vdeps:
                s2 = dict(s)
                s2[p] = not s[p]
                if s2 not in sig:
                    continue
                k1, k2_ = keys.get(tuple(sorted(s.items()))), keys.get(tuple(sorted(s2.items())))
                if (k1, p) in IGNORES and k1 == k2_:
                    c.ob('key-encodes-option', '%s ignores %s' % (k1, p))
                    continue
                c.check(k1 != k2_ or k1 is None, 'key-encodes-option', '%s:%s:%s' % (q, p, s), e.loc,
                        'results for %s=True and %s=False are both remembered as %r (with %s)' % (p, p, k1, s))
        for p in bps:
            if p in vdeps:
                c.ob('value-follows-option', '%s:%s' % (q, p))
                continue
            for s in sig:
                s2 = dict(s)
                s2[p] = not s[p]
                k1, k2_ = keys.get(tuple(sorted(s.items()))), keys.get(tuple(sorted(s2.items())))
                if s2 in sig and k1 is not None and k2_ is not None and k1 != k2_:
                    c.bad('value-follows-option', '%s:%s' % (q, p), e.loc,
                          'what is remembered as %r and as %r is the same value: it does not depend on %s' % (k1, k2_, p))
                    break
        rest = (deps(V) | deps(K)) - set(bps) - {fi.params()[0]}
        c.check(not rest, 'remembered-value-depends-on-key-only', q, e.loc,
                'the remembered value depends on %s, which its key does not encode' % ', '.join(sorted(rest)))

    # ---- rule: one key, one quantity
    def quantity(v):
        return frozenset((n.replace('_double', '').replace('_float', '')) for n in natives(v, set())
                         if n not in TOPOLOGY) or frozenset(natives(v, set()))
    for k, ws in sorted(keyinfo.items()):
        def top(v):
            i = None
            while v.op == 'item':
                i = v.args[1]
                v = v.args[0]
            return (callee(v) if v.op == 'call' else v.op, i)
        tops = {top(v) if not any((k, p) in IGNORES for p in s) else ('entering', top(v)[1]) for _, s, v, _ in ws}
        c.check(len(tops) == 1, 'one-key-one-quantity', k, ws[0][3],
                'key %r is used for different quantities: %s' % (k, sorted(map(str, tops))))

    # ---- rule: reads use the key that was written
    nread = 0
    for q, it in its.items():
        fi = P.funcs[q]
        if q not in known or it.result is None or fi.cls is not fsa:
            continue
        if q.endswith('__getattr__') or q.endswith('.clone') or q.endswith('.detach'):
            continue
        self_t = param(fi.params()[0]) if fi.params() else None
        bps = bool_params(fi)
        writes_here = [(K, V, e) for q2, f2, e, K, V in own if q2 == q]
        for s in assignments(bps):
            r = under(it.result, s)
            for x in subterms(r):
                k = None
                if x.op == 'item' and cache_owner(x.args[0]) is self_t:
                    k = x.args[1]
                elif x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('get', 'setdefault', 'pop') and \
                        cache_owner(x.args[0].args[0]) is self_t and x.args[1]:
                    k = x.args[1][0]
                if k is None:
                    continue
                nread += 1
                name = '%s%s reads %s' % (q, s, show(k)[:60])
                if not (is_const(k) and cval(k) in keyinfo):
                    c.check(False, 'read-key-was-written', name, it.where_result if hasattr(it, 'where_result') else P.loc(fi, fi.node),
                            'no remembered value is ever stored under this key')
                    continue
                ws = keyinfo[cval(k)]
                ok = False
                for wq, ws_, wv, wl in ws:
                    if all(s.get(p, v) == v or (cval(k), p) in IGNORES for p, v in ws_.items() if p in s):
                        ok = True
                c.check(ok, 'read-key-was-written', name, P.loc(fi, fi.node),
                        'value read under %s was stored for other options: %s' % (show(k), [w[1] for w in ws]))
            # own key: the guard, the read and the write must agree
            if writes_here:
                mine = {cval(under(K, s)) for K, V, e in writes_here if is_const(under(K, s)) and pc_under(e.pc, s)}
                conds = [x for x in subterms(r) if x.op == 'in' and cache_owner(x.args[1]) is self_t]
                for x in conds:
                    kk = x.args[0]
                    c.check(is_const(kk) and cval(kk) in mine, 'guard-key-is-written-key', '%s%s' % (q, s), P.loc(fi, fi.node),
                            'presence is tested for %s but the value is stored under %s' % (show(kk)[:80], sorted(mine)))
                for cond_k, val in [(x, None) for x in conds]:
                    hit = assume(r, {cond_k: True})
                    miss = assume(r, {cond_k: False})
                    c.check(hit is mk('item', attr(self_t, '_cache'), cond_k.args[0]) or
                            (hit.op == 'call' and callee(hit) == '.get'), 'hit-returns-remembered', '%s%s' % (q, s), P.loc(fi, fi.node),
                            'when the value is remembered the method returns %s' % show(hit)[:160])
                    vals = {under(V, s) for K, V, e in writes_here if under(K, s) is cond_k.args[0] and pc_under(e.pc, s)}
                    vals = {assume(v, {cond_k: False}) for v in vals}
                    if vals:
                        c.check(miss in vals, 'miss-returns-stored', '%s%s' % (q, s), P.loc(fi, fi.node),
                                'the first call returns %s but %s is stored' % (show(miss)[:160], show(list(vals)[0])[:160]))
    c.need(nread >= 10, 'fewer than 10 reads of remembered values found')

    # ---- rule: assigning scores drops every score dependent value
    score_keys, topo_keys = set(), set()
    for k, ws in keyinfo.items():
        ns = set()
        for _, s, v, _ in ws:
            ns |= natives(v, set())
        (topo_keys if ns and ns <= TOPOLOGY else score_keys).add(k)
    c.analysed['keys'] = {'score_dependent': sorted(score_keys), 'topology_only': sorted(topo_keys)}
    c.need(len(score_keys) >= 10, 'fewer than 10 score dependent keys')
    sa = P.funcs.get('k2.fsa.Fsa.__setattr__')
    c.need(sa is not None, 'Fsa.__setattr__ not found')

    def set_attr_effect(name):
        it = Interp(P, inline=lambda q: q.startswith('k2.fsa.Fsa.') and not q.endswith('.properties'), known=known)
        ps = sa.params()
        cache = mk('newdict', -1)
        it.pre = None
        self_t = param(ps[0])
        heap = {(self_t, '_cache'): cache,
                ('content', cache): ('dict', {const(k): mk('remembered', k) for k in sorted(keyinfo)}, False)}
        env = {ps[0]: self_t, ps[1]: const(name), ps[2]: param(ps[2])}
        it.types[self_t] = 'k2.fsa.Fsa'
        v = param(ps[2])
        st = State(env, heap, ((mk('isinstance', v, glob('torch.Tensor')), True, 'assume'),))
        r = it.call_body(sa, st)
        return it, r, self_t

    it, r, self_t = set_attr_effect('scores')
    c.need(r is not None, 'assigning scores never returns')
    heap = r[1].heap
    cobj = heap[(self_t, '_cache')]
    for _, co in alts(cobj):
        cont = heap.get(('content', co))
        if cont is None or cont[0] != 'dict':
            c.bad('score-change-forgets', 'scores', P.loc(sa, sa.node), 'cannot establish which remembered values survive a score assignment')
            continue
        for k in sorted(score_keys):
            left = cont[1].get(const(k))
            c.check(left is None or left.op == 'absent', 'score-change-forgets', k, P.loc(sa, sa.node),
                    'after scores are assigned, the value remembered as %r is kept%s' %
                    (k, '' if left is None or left.op != 'phi' else ' when ' + show(left.args[0])[:120]))

    # ---- rule: the arcs' score column follows an assignment to scores
    v = param(sa.params()[2])
    stores = [e for e in it.events if e.kind == 'setitem' and e.fn.op == 'call' and callee(e.fn) == '.values']
    arcs_vals = mk('call', attr(attr(self_t, 'arcs'), 'values'), (), ())
    col = [e for e in stores if e.fn is arcs_vals and e.args[0].op == 'tuple' and len(e.args[0].args) == 2 and
           e.args[0].args[1] in (const(-1), const(3)) and not e.cond(('br', 'loop', 'try'))]
    ok = any(any(strip(a) is v for x in calls_in(e.args[1]) if callee(x) == '_k2.as_int' for a in x.args[1]) for e in col)
    c.check(ok, 'score-assignment-reaches-arcs', 'scores', P.loc(sa, sa.node),
            'assigning scores does not store the new values, bit-reinterpreted, in the score column of the arcs on every path')
    kept = [e for e in it.events if e.kind == 'setitem' and e.fn is attr(self_t, '_tensor_attr') and e.args[0] is const('scores') and not e.cond(('br', 'loop', 'try'))]
    c.check(any(e.args[1] is v for e in kept), 'score-assignment-keeps-tensor', 'scores', P.loc(sa, sa.node),
            'assigning scores does not keep the assigned tensor as the score attribute on every path')

    # ---- rule: nobody else writes arcs or score storage behind the memory's back
    for q, it2 in its.items():
        if q not in known or q in ('k2.fsa.Fsa.__setattr__', 'k2.fsa.Fsa.__init__'):
            continue
        for e in it2.events:
            tgt = None
            if e.kind in ('setitem', 'inplace') and isinstance(e.fn, T):
                t = e.fn if e.kind == 'setitem' else e.args[0]
                base = t
                while True:
                    if base.op in ('item', 'elem'):
                        base = base.args[0]
                    elif base.op == 'call' and base.args[0].op == 'attr' and base.args[0].args[1] in ('view', 't', 'reshape'):
                        base = base.args[0].args[0]
                    else:
                        break
                if base.op == 'call' and callee(base) == '.values' and base.args[0].args[0].op == 'attr' and base.args[0].args[0].args[1] == 'arcs':
                    tgt = show(base)
                if e.kind == 'setitem' and t.op == 'attr' and t.args[1] == '_tensor_attr' and e.args[0] in (const('scores'), const('labels')):
                    tgt = show(t)
            c.ob('arcs-written-only-by-assignment', q)
            if tgt:
                c.bad('arcs-written-only-by-assignment', q, e.loc, '%s is changed without forgetting the values computed from it' % tgt[:120])
    c.floor('key-encodes-option', 12)
    c.floor('score-change-forgets', 10)
    c.assumptions += ['natives in the TOPOLOGY table read the structure of the arcs only']


if __name__ == '__main__':
    harness.main('C03', 'abstract interpretation of the FSA class: key construction, reads, writes, copies and '
                 'invalidation of remembered values as gated value terms, compared under every option assignment', main)
