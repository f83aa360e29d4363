#!/usr/bin/env python3
"""C08: arguments that break a documented requirement are rejected."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyutil import *
from mock import *
import json
import harness
import c02

I32, F32, F64, I64 = 'torch.int32', 'torch.float32', 'torch.float64', 'torch.int64'
SORTED, VALID = 16, 1
ATTR = lambda n=4, dt=I32, dev='cpu': tensor((n,), dt, dev)


class Cases:
    """Descriptions of argument lists: one that is in order and the ones that must be rejected."""

    def __init__(self):
        self.rows = []

    def add(self, q, good, bad):
        self.rows.append((q, good, bad))


def segs(*rows):
    rows = [list(r) for r in rows]
    return tensor((len(rows), 3), I32, rows=rows)


def table():
    c = Cases()
    good = dict(log_probs=tensor((2, 10, 5)), supervision_segments=segs([0, 0, 10]), allow_truncate=0)
    c.add('k2.dense_fsa_vec.DenseFsaVec.__init__', good, [
        ('log_probs with 2 axes', dict(log_probs=tensor((2, 10)))),
        ('log_probs with 4 axes', dict(log_probs=tensor((2, 10, 5, 1)))),
        ('log_probs of float64', dict(log_probs=tensor((2, 10, 5), F64))),
        ('segments with 1 axis', dict(supervision_segments=tensor((3,), I32))),
        ('segments with 3 axes', dict(supervision_segments=tensor((3, 3, 3), I32))),
        ('segments of int64', dict(supervision_segments=tensor((1, 3), I64))),
        ('segments on cuda', dict(supervision_segments=tensor((1, 3), I32, 'cuda'))),
        ('negative allow_truncate', dict(allow_truncate=-1)),
        ('segment index below 0', dict(supervision_segments=segs([-1, 0, 10]))),
        ('segment index = N', dict(supervision_segments=segs([2, 0, 10]))),
        ('start frame below 0', dict(supervision_segments=segs([1, -1, 5]))),
        ('start frame = T', dict(supervision_segments=segs([1, 10, 0]))),
        ('negative duration', dict(supervision_segments=segs([1, 5, -1]))),
        ('segment one frame too long', dict(supervision_segments=segs([1, 3, 8]))),
        ('+segment up to the last frame', dict(supervision_segments=segs([1, 3, 7]))), ('+segment without frames', dict(supervision_segments=segs([1, 9, 0]))),
        ('+segment too long by allow_truncate', dict(supervision_segments=segs([1, 3, 9]), allow_truncate=2)),
        ('segment too long by more than allow_truncate', dict(supervision_segments=segs([1, 3, 10]), allow_truncate=2)),
    ])
    for q in ('k2.dense_fsa_vec.DenseFsaVec.to', 'k2.fsa.Fsa.to'):
        c.add(q, dict(device=device('cpu')), [('device of another kind', dict(device=device('meta'))), ('name of another kind of device', dict(device='meta'))])
    red = [('unknown reduction', dict(reduction='max')), ('empty reduction', dict(reduction='')), ('reduction None', dict(reduction=None)), ('part of a name', dict(reduction='su')), ('+none', dict(reduction='none')), ('+sum', dict(reduction='sum'))]
    for q in ('k2.ctc_loss.CtcLoss.__init__', 'k2.mwer_loss.MWERLoss.__init__', 'k2.ctc_loss.ctc_loss', 'k2.mwer_loss.mwer_loss'):
        c.add(q, dict(reduction='mean', self=Obj(['self'])), red)
    lat = lambda **kw: fsa(attrs=kw)
    CALL = 'call of k2.autograd.intersect_dense'
    c.add('k2.ctc_loss.CtcLoss.forward', dict(delay_penalty=0.5, self=Obj(['self'], dict(reduction='sum')), **{CALL: lat(aux_labels=ATTR())}), [
        ('delay penalty without aux_labels', {CALL: lat()}),
        ('delay penalty with ragged aux_labels', {CALL: lat(aux_labels=ragged())}),
        ('delay penalty with ragged repeat marks', {CALL: lat(_is_repeat_token_=ragged(), aux_labels=ATTR())}),
    ])
    c.add('k2.ctc_loss.CtcLoss.forward', dict(delay_penalty=0.0, self=Obj(['self'], dict(reduction='sum')), **{CALL: lat(aux_labels=ATTR())}), [
        ('unknown reduction', dict(self=Obj(['self'], dict(reduction='max'))))])
    c.add('k2.decode.get_lattice', dict(log_prob=tensor((2, 10, 5)), log_prob_len=tensor((2,), I32)), [
        ('log_prob with 2 axes', dict(log_prob=tensor((2, 10)))),
        ('log_prob_len with 2 axes', dict(log_prob_len=tensor((2, 1), I32))),
        ('fewer lengths than sequences', dict(log_prob_len=tensor((1,), I32))),
        ('more lengths than sequences', dict(log_prob_len=tensor((3,), I32))),
    ])
    # ---- Fsa
    own = dict(self=fsa(attrs=dict(x=ATTR(), s='t')))
    c.add('k2.fsa.Fsa.__setattr__', dict(own, name='foo', value=ATTR()), [
        ('internal name %s' % n, dict(name=n, value=v)) for n in ('_tensor_attr', '_non_tensor_attr', 'arcs', '_cache', '_properties', 'properties') for v in (ATTR(), 3)
    ] + [('+labels', dict(name='labels', value=ATTR())), ('+scores', dict(name='scores', value=ATTR(dt=F32))), ('+tensor with 2 axes', dict(value=tensor((4, 2)))), ('+ragged tensor', dict(value=ragged())),
         ('+ragged tensor with 3 axes', dict(value=ragged(3))), ('+float64 attribute', dict(value=ATTR(dt=F64))), ('+non-tensor attribute', dict(value='abc')), ('tensor with too few elements', dict(value=ATTR(3))), ('tensor with too many elements', dict(value=ATTR(5))), ('tensor on another device', dict(value=ATTR(dev='cuda'))),
         ('labels of int64', dict(name='labels', value=ATTR(dt=I64))), ('labels of float32', dict(name='labels', value=ATTR(dt=F32))),
         ('labels of the wrong length', dict(name='labels', value=ATTR(3))), ('scores of float64', dict(name='scores', value=ATTR(dt=F64))),
         ('scores of int32', dict(name='scores', value=ATTR())), ('scores of the wrong length', dict(name='scores', value=ATTR(5, F32))),
         ('ragged tensor with too few lists', dict(value=ragged(dim0=3))), ('ragged tensor with too many lists', dict(value=ragged(dim0=5))),
         ('ragged tensor on another device', dict(value=ragged(dev='cuda')))])
    c.add('k2.fsa.Fsa.__delattr__', dict(own, name='x', **{'value of k2.fsa.Fsa.__dict__': {'shape': 1, 'properties': 1}}), [
        ('scores', dict(name='scores')), ('internal name', dict(name='_tensor_attr')), ('name of a property', dict(name='shape')), ('missing attribute', dict(name='nothing'))])
    c.add('k2.fsa.Fsa.__getattr__', dict(own, name='x'), [('missing attribute', dict(name='nothing'))])
    c.add('k2.fsa.Fsa.__getitem__', dict(own, i=1), [('+first FSA', dict(i=0)), ('a single FSA', dict(self=fsa(vec=False))), ('negative index', dict(i=-1)), ('index past the last FSA', dict(i=2))])
    c.add('k2.fsa.Fsa.__init__', dict(arcs=Obj(['_k2.RaggedArc'], {}, {'num_axes': 2})), [('arcs of another kind', dict(arcs=ragged())), ('arcs as a list', dict(arcs=[1, 2]))])
    c.add('k2.fsa.Fsa.convert_attr_to_ragged_', dict(own, name='x'), [
        ('missing attribute', dict(name='nothing')), ('ragged attribute', dict(self=fsa(attrs=dict(x=ragged())))), ('attribute with 2 axes', dict(self=fsa(attrs=dict(x=tensor((4, 2), I32))))),
        ('float attribute', dict(self=fsa(attrs=dict(x=ATTR(dt=F32))))), ('int64 attribute', dict(self=fsa(attrs=dict(x=ATTR(dt=I64))))), ('non-tensor attribute', dict(name='s'))])
    c.add('k2.fsa.Fsa.draw', dict(own, filename='a.pdf', title=None), [('file name without extension', dict(filename='a'))])
    c.add('k2.fsa.Fsa.get_filler', dict(own, attribute_name='aux_labels'), [('non-zero filler of aux_labels', dict(self=fsa(attrs=dict(aux_labels_filler=5))))])
    c.add('k2.fsa.Fsa.invert_', dict(self=fsa(attrs=dict(aux_labels=ATTR()))), [('acceptor', dict(self=fsa())), ('ragged aux_labels', dict(self=fsa(attrs=dict(aux_labels=ragged()))))])
    c.add('k2.fsa.Fsa.rename_tensor_attribute_', dict(own, src_name='x', dest_name='y'), [('same names', dict(dest_name='x')), ('missing source', dict(src_name='z')), ('non-tensor source', dict(src_name='s'))])
    c.add('k2.fsa.Fsa.set_scores_stochastic_', dict(own, scores=ATTR(dt=F32)), [
        ('2 axes', dict(scores=tensor((4, 1)))), ('float64', dict(scores=ATTR(dt=F64))), ('too few', dict(scores=ATTR(3, F32))), ('too many', dict(scores=ATTR(5, F32)))])
    c.add('k2.fsa.Fsa.shape', own, [('arcs with 4 axes', dict(self=Obj(['k2.fsa.Fsa'], dict(arcs=Obj(['_k2.RaggedArc'], {}, {'num_axes': 4})))))])
    for q in ('k2.fsa.get_aux_label_info', 'k2.fsa.Fsa.from_str', 'k2.fsa.Fsa.from_openfst'):
        op = dict(s='x', ragged_label_names=[])
        c.add(q, dict(op, acceptor=None, num_aux_labels=1, aux_label_names=None), [
            ('acceptor and number', dict(acceptor=True, num_aux_labels=1)), ('not acceptor and number', dict(acceptor=False, num_aux_labels=1)),
            ('acceptor and names', dict(acceptor=True, num_aux_labels=None, aux_label_names=['a'])), ('names and number', dict(num_aux_labels=1, aux_label_names=['a'])),
            ('negative number', dict(num_aux_labels=-1))])
    # ---- operations on FSAs
    P = 'k2.fsa_algo.'
    both = lambda **kw: dict(a_fsa=fsa(props=0xffff, **kw), b_fsa=fsa(props=0xffff, **kw))
    uns = lambda dev='cpu', **kw: fsa(props=0xffff & ~SORTED, dev=dev, **kw)
    c.add(P + 'intersect', dict(both(), treat_epsilons_specially=True), [('first operand not arc-sorted', dict(a_fsa=uns())), ('second operand not arc-sorted', dict(b_fsa=uns()))])
    aux = dict(attrs=dict(aux_labels=ATTR()))
    for tes in (True, False):
        good = dict(a_fsa=fsa(**aux), b_fsa=fsa(**aux), treat_epsilons_specially=tes, inner_labels=None)
        c.add(P + 'compose', good, [('first operand without aux_labels', dict(a_fsa=fsa())), ('first operand with ragged aux_labels', dict(a_fsa=fsa(attrs=dict(aux_labels=ragged())))),
                                    ('second operand not arc-sorted', dict(b_fsa=uns(**aux))), ('inner_labels with an acceptor as second operand', dict(b_fsa=fsa(), inner_labels='inner'))])
    c.add(P + 'determinize', dict(fsa=fsa(vec=False, attrs={'_': 1})), [('FSA on cuda', dict(fsa=fsa(vec=False, dev='cuda'))), ('FSA that requires a gradient', dict(fsa=fsa(vec=False, requires_grad=True)))])
    bad = [('float ragged attribute', ragged(dtype=F32)), ('float64 ragged attribute', ragged(dtype=F64))]
    att = lambda v, **kw: fsa(attrs=dict(x=v), **kw)
    c.add(P + 'closure', dict(fsa=att(ATTR(), vec=False)), [(n, dict(fsa=att(v, vec=False))) for n, v in bad])
    c.add(P + 'invert', dict(fsa=fsa(attrs=dict(aux_labels=ATTR()))), [(n.replace('attribute', 'aux_labels'), dict(fsa=fsa(attrs=dict(aux_labels=v)))) for n, v in bad])
    c.add(P + 'expand_ragged_attributes', dict(fsas=att(ragged()), ragged_attribute_names=None), [(n, dict(fsas=att(v))) for n, v in bad])
    c.add(P + 'expand_ragged_attributes', dict(fsas=att(ragged()), ragged_attribute_names=['x']), [(n, dict(fsas=att(v))) for n, v in bad] + [('tensor attribute', dict(fsas=att(ATTR())))])
    c.add('k2.ops.index_fsa', dict(src=att(ragged())), [(n, dict(src=att(v))) for n, v in bad])
    c.add('k2.utils.fsa_from_unary_function_tensor', dict(src=att(ragged())), [(n, dict(src=att(v))) for n, v in bad])
    for rf in (True, False):
        c.add('k2.utils.fsa_from_unary_function_ragged', dict(src=att(ragged()), remove_filler=rf), [(n, dict(src=att(v))) for n, v in bad] + [('int64 attribute', dict(src=att(ATTR(dt=I64))))] +
              ([] if rf else [('int32 attribute whose fillers are kept', dict(src=att(ATTR())))]))
    c.add('k2.utils.fsa_from_binary_function_tensor', dict(a_fsa=att(ATTR(dt=F32)), b_fsa=att(ATTR(dt=F32))), [
        ('int32 attribute in both', dict(a_fsa=att(ATTR()), b_fsa=att(ATTR()))), ('int32 attribute in the second', dict(b_fsa=att(ATTR()))), ('int32 attribute in the first', dict(a_fsa=att(ATTR()))),
        ('float64 attribute in both', dict(a_fsa=att(ATTR(dt=F64)), b_fsa=att(ATTR(dt=F64)))), ('ragged attribute in both', dict(a_fsa=att(ragged()), b_fsa=att(ragged())))] +
        [(n + ' in the first', dict(a_fsa=att(v), b_fsa=fsa())) for n, v in bad])
    c.add('k2.utils.fsa_from_binary_function_tensor', dict(a_fsa=fsa(), b_fsa=att(ragged()), **{'new k2.fsa.Fsa': fsa()}), [(n + ' in the second', dict(b_fsa=att(v))) for n, v in bad])
    both = lambda x, y: dict(refs=x, hyps=y)
    la = fsa(attrs=dict(aux_labels=ATTR()))
    c.add(P + 'levenshtein_alignment', both(la, la), [('refs without aux_labels', dict(refs=fsa())), ('hyps without aux_labels', dict(hyps=fsa()))])
    c.add(P + 'linear_fsa', dict(labels=ragged(), device=None), [('device with a ragged tensor', dict(device='cpu'))])
    c.add(P + 'linear_fst', dict(labels=[[1, 2]], aux_labels=[[3, 4]]), [('one list of aux_labels for a batch', dict(aux_labels=[3, 4]))])
    c.add(P + 'linear_fst_with_self_loops', dict(fsts=la), [('no aux_labels', dict(fsts=fsa()))])
    c.add(P + 'random_paths', dict(num_paths=1), [('no path', dict(num_paths=0)), ('negative number of paths', dict(num_paths=-1))])
    sh = lambda v=True, dim0=2, **kw: fsa(vec=v, dim0=dim0, **kw)
    c.add('k2.nbest.Nbest.__init__', dict(fsa=sh(dim0=6), shape=shape(2, {1: 6})), [
        ('a single FSA', dict(fsa=sh(False, 6))), ('shape with 3 axes', dict(shape=shape(3, {1: 6}))), ('fewer FSAs than paths', dict(fsa=sh(dim0=5))), ('more FSAs than paths', dict(fsa=sh(dim0=7)))])
    nb = Obj(['k2.nbest.Nbest'], dict(fsa=sh(dim0=6), shape=shape(2, {1: 6}, dim0=2)))
    c.add('k2.nbest.Nbest.intersect', dict(self=nb, lats=sh()), [
        ('lattices on another device', dict(lats=sh(dev='cuda'))), ('a single lattice', dict(lats=sh(False))), ('fewer lattices than sequences', dict(lats=sh(dim0=1))), ('more lattices than sequences', dict(lats=sh(dim0=3)))])
    c.add('k2.nbest.Nbest.top_k', {'self': nb, 'k': 2, 'call of .pad': Vec([0, 1, 2])}, [('a sequence without paths', {'call of .pad': Vec([0, -1, 1])}),
                                                                                        ('no sequence with paths', {'call of .pad': Vec([-1, -1])})])
    lm = lambda *n, **kw: fsa(attrs={x: ATTR(dt=F32) for x in n}, **kw)
    c.add('k2.nbest.generate_nbest_list', dict(lats=lm('phones')), [('a single lattice', dict(lats=lm('phones', vec=False))), ('no phones', dict(lats=lm())), ('tokens present', dict(lats=lm('phones', 'tokens')))])
    c.add('k2.nbest.whole_lattice_rescoring', dict(lats=lm('lm_scores'), G_with_epsilon_loops=fsa(dim0=1)), [
        ('a single lattice', dict(lats=lm('lm_scores', vec=False))), ('no lm_scores', dict(lats=lm())), ('G is a batch', dict(G_with_epsilon_loops=fsa(dim0=2))), ('G is a single FSA', dict(G_with_epsilon_loops=fsa(vec=False)))])
    for q, p in (('k2.nbest._get_texts', 'best_paths'), ('k2.decode.get_aux_labels', 'best_paths')):
        pass
    c.add('k2.ops.cat', dict(srcs=[fsa()]), [('a single FSA', dict(srcs=[fsa(vec=False)])), ])
    c.add('k2.ops.cat', dict(srcs=[fsa(), fsa()]), [('a single FSA in the second place', dict(srcs=[fsa(), fsa(vec=False)]))])
    c.add('k2.utils.create_fsa_vec', dict(fsas=[fsa(vec=False)]), [('a batch', dict(fsas=[fsa()]))])
    c.add('k2.utils.create_fsa_vec', dict(fsas=[fsa(vec=False), fsa(vec=False)]), [('a batch in the second place', dict(fsas=[fsa(vec=False), fsa()]))])
    am = lambda *s, dt=I32: tensor(s, dt)
    c.add('k2.ops.compose_arc_maps', dict(step1_arc_map=am(4), step2_arc_map=am(4)), [
        ('%s %s' % (p, n), {p: v}) for p in ('step1_arc_map', 'step2_arc_map') for n, v in (('with 2 axes', am(4, 1)), ('of int64', am(4, dt=I64)), ('of float32', am(4, dt=F32)))])
    r = dict(rows=am(4), cols=am(4), values=am(4, dt=F32), size=None, min_col_index=None)
    c.add('k2.utils.create_sparse', r, [
        ('rows with 2 axes', dict(rows=am(4, 1))), ('cols with 2 axes', dict(cols=am(4, 1))), ('rows and cols with 2 axes', dict(rows=am(2, 2), cols=am(2, 2))), ('fewer rows', dict(rows=am(3))), ('fewer cols', dict(cols=am(3))), ('fewer values', dict(values=am(3, dt=F32))), ('more rows', dict(rows=am(5))), ('more cols', dict(cols=am(5))), ('more values', dict(values=am(5, dt=F32))),
        ('min_col_index as float', dict(min_col_index=1.5))])
    c.add('k2.sparse.autograd._AbsFunction.forward', dict(sparse_tensor=tensor((3, 3), is_sparse=True)), [
        ('a dense tensor', dict(sparse_tensor=tensor((3, 3)))), ('not coalesced', dict(sparse_tensor=tensor((3, 3), is_sparse=True, coalesced=False)))])
    for q in ('k2.utils.to_str', 'k2.utils.to_str_simple', 'k2.utils.to_dot'):
        c.add(q, dict(fsa=fsa(vec=False)), [('a batch', dict(fsa=fsa()))])
    # ---- RNN-T decoding
    c.add('k2.rnnt_decode.RnntDecodingStreams.__init__', dict(src_streams=[Obj(['stream'], dict(device=DEV['cpu']))]), [('no stream', dict(src_streams=[]))])
    st = Obj(['streams'], dict(num_streams=2, src_streams=[Obj(['s'], dict(fsa=att(ragged()))), Obj(['s'], dict(fsa=att(ragged())))], device=DEV['cpu']))
    g = dict(self=st, num_frames=[3, 3], allow_partial=False, log_probs=None, t2s2c_shape=None)
    c.add('k2.rnnt_decode.RnntDecodingStreams.format_output', g, [
        ('too few numbers of frames', dict(num_frames=[3])), ('too many numbers of frames', dict(num_frames=[3, 3, 3])), ('log_probs without shape', dict(log_probs=tensor((7, 5)))),
        ('log_probs with fewer rows than contexts', dict(log_probs=tensor((7, 5)), t2s2c_shape=shape(3, {2: 8}))), ('log_probs with more rows than contexts', dict(log_probs=tensor((9, 5)), t2s2c_shape=shape(3, {2: 8})))] +
        [(n, dict(self=st.but(src_streams=[Obj(['s'], dict(fsa=att(v)))] * 2))) for n, v in bad + [('ragged attribute with 3 axes', ragged(3))]])
    # ---- symbol tables
    tab = lambda ids, eps='<eps>', nxt=9: Obj(['k2.symbol_table.SymbolTable'], dict(_id2sym=dict(ids), _sym2id={v: k for k, v in ids.items()}, eps=eps, _next_available_id=nxt))
    S = 'k2.symbol_table.SymbolTable.'
    base = {0: '<eps>', 1: 'a'}
    c.add(S + 'add', dict(self=tab(base), symbol='b', index=2), [('id in use', dict(index=1)), ('id 0 in use', dict(index=0)), ('negative id', dict(index=-1))])
    c.add(S + '__post_init__', dict(self=tab(base)), [
        ('negative id', dict(self=tab({0: '<eps>', -1: 'a'}))), ('id 0 is not epsilon', dict(self=tab({0: 'a', 1: '<eps>'}))), ('id 0 is another symbol', dict(self=tab({0: 'a', 1: 'b'}))),
        ('one symbol of two ids', dict(self=tab({0: '<eps>', 1: 'a', 2: 'a'}).but(_sym2id={'<eps>': 0, 'a': 2}))),
        ('two symbols of one id', dict(self=tab(base).but(_sym2id={'<eps>': 0, 'a': 1, 'b': 1})))])
    for q in ('from_str',):
        c.add(S + q, dict(s='a 1'), [('line with one field', dict(s='a')), ('line with three fields', dict(s='a b 1'))])
    return c.rows


class W(World):
    def __init__(self, args, pick):
        World.__init__(self, {k: v for k, v in args.items() if ' ' not in k}, pick, {k[9:]: v for k, v in args.items() if k.startswith('value of ')})
        self.calls = {k[8:]: v for k, v in args.items() if k.startswith('call of ')}
        self.news = {k[4:]: v for k, v in args.items() if k.startswith('new ')}

    def hook1(self, t, m):
        if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in self.calls:
            return self.calls[t.args[0].args[0]]
        if t.op == 'call' and t.args[0].op == 'attr' and '.' + t.args[0].args[1] in self.calls:
            return self.calls['.' + t.args[0].args[1]]
        if t.op == 'new' and t.args[0] in self.news:
            return self.news[t.args[0]]
        return World.hook1(self, t, m)


def value(e_pc, m):
    r = True
    for x in e_pc:
        if x[2] == 'raise' or x[0].op == 'iter':
            continue        # an earlier guard that fires is a rejection as well
        v = truth(x[0], m)
        if v is UNK:
            r = UNK
        elif v != x[1]:
            return False
    return r


def judge(P, q, args, known, cache, changed=()):
    """True: rejected; False: accepted; UNK: not decided.  And how many raises that look at what was changed are not decided."""
    res, open_ = False, set()
    for mode in ('own', 'inlined'):
        if (q, mode) not in cache:
            it = analyze(P, q, known=known, **(dict(inline=c02.inlined) if mode == 'inlined' else {}))
            cache[q, mode] = [e for e in it.events if e.kind == 'raise']
        for k in range(3):         # an element of a sequence that must not be there
            m = W(args, k).model()
            for i, e in enumerate(cache[q, mode]):
                v = value(e.pc, m)
                if v is True:
                    res = True
                if v is UNK:
                    res = UNK if res is False else res
                    if mode == 'own' and any(looks_at(x, changed) for a, _, kind in e.pc if kind != 'raise' for x in subterms(a)):
                        open_.add(i)
    return res, len(open_)


def looks_at(x, changed):
    if x.op == 'param':
        return x.args[0] in changed
    if x.op == 'call':
        return 'call of ' + callee(x) in changed
    if x.op == 'new':
        return 'new ' + str(x.args[0]) in changed
    return False


BASE = os.path.join(VERIF, 'spec', 'c08_open.json')


def run(c, P=None, write=False):
    P = P or Program()
    known = load_known()
    cache = {}
    base = {} if write else json.load(open(BASE))
    for q, good, bad in table():
        if q not in P.funcs:
            if '.from_openfst' in q:
                continue
            c.need(False, q + ' is gone')
        fi = P.funcs[q]
        loc = P.loc(fi, fi.node)
        v, _ = judge(P, q, good, known, cache)
        c.check(v is not True, 'accepts', '%s: arguments in order' % q, loc, 'rejects arguments that meet every requirement')
        for name, ch in bad:
            v, n = judge(P, q, dict(good, **ch), known, cache, ch)
            if name[0] == '+':
                c.check(v is not True, 'accepts', '%s: %s' % (q, name[1:]), loc, 'rejects arguments that meet every requirement')
                continue
            key = '%s: %s' % (q, name)
            if write:
                base[key] = max(base.get(key, 0), n)
            if v is UNK and n > base.get(key, 0):
                c.ob('rejects', '%s: %s' % (q, name))
                c.notes.append('%s: %s: a check of a form that is not evaluated may reject it' % (q, name))
                continue
            c.check(v is True, 'rejects', '%s: %s' % (q, name), loc, 'does not reject these arguments: no raise or failed assertion is reached%s' % (' (not decided)' if v is UNK else ''))
    if write:
        json.dump({k: v for k, v in base.items() if v}, open(BASE, 'w'), indent=0, sort_keys=True)
        return
    c.floor('rejects', 150)
    c.analysed = dict(functions=len({r[0] for r in table()}), raise_sites=sum(len(v) for k, v in cache.items() if k[1] == 'own'))


if __name__ == '__main__':
    if sys.argv[1:] == ['--write-base']:       # by hand, on a tree in order
        run(harness.Check('C08', '') if hasattr(harness, 'Check') else None, write=True)
        sys.exit(0)
    harness.main('C08', 'evaluation of every raise and assertion of the package on descriptions of wrong and right arguments (three-valued, over the terms of an abstract interpretation)', run)
