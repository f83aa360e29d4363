#!/usr/bin/env python3
"""C11: saving and loading an FSA or a symbol table loses nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyutil import *
from mock import *
import mock
import harness
import c02

I32, F32 = 'torch.int32', 'torch.float32'
S = 'k2.symbol_table.SymbolTable'
F = 'k2.fsa.Fsa'


class W(World):
    """World with text: f-strings, numbers as text, dicts that a function fills."""

    def __init__(self, args, pick=0, filled=(), extra=None):
        World.__init__(self, args, pick, extra)
        self.filled = filled        # terms of containers that already hold whatever is looked up

    def hook1(self, t, m):
        o, a = t.op, t.args
        if o == 'in' and a[1].op in ('newdict', 'newlist') or o == 'in' and a[1].op == 'call' and a[1].args[0] in (glob('builtins.set'), glob('builtins.dict')):
            return a[1] in self.filled
        if o in ('in', 'item') or o == 'call' and a[0] == glob('builtins.len') and len(a[1]) == 1:
            b = ev(a[1][0] if o == 'call' else a[1] if o == 'in' else a[0], m)
            if isinstance(b, Obj) and b.types[0] == S:      # a table answers like its dicts (see 'symbols looked up')
                if o == 'call':
                    return len(b.attrs['_id2sym'])
                k = ev(a[0] if o == 'in' else a[1], m)
                if isinstance(k, (int, str)):
                    d = b.attrs['_id2sym' if isinstance(k, int) else '_sym2id']
                    return k in d if o == 'in' else d.get(k, UNK)
                return UNK
        if o == 'fstr':
            xs = [ev(x, m) if isinstance(x, T) else x for x in a]
            if any(x is UNK or isinstance(x, Obj) for x in xs):
                return UNK
            return ''.join(str(x) for x in xs)
        if o == 'op' and a[0] == 'Add':
            xs = [ev(x, m) for x in a[1:]]
            if all(isinstance(x, str) for x in xs):
                return ''.join(xs)
        if o == 'call' and a[0].op == 'glob':
            xs = [ev(x, m) for x in a[1]]
            n = a[0].args[0]
            if n == 'builtins.str' and len(xs) == 1 and isinstance(xs[0], (int, str)):
                return str(xs[0])
            if n in ('builtins.max', 'builtins.min') and len(xs) == 1 and isinstance(xs[0], (dict, list, tuple)) and xs[0]:
                return (max if n.endswith('max') else min)(xs[0])
            if n in ('builtins.sorted', 'builtins.list', 'builtins.tuple') and len(xs) == 1 and isinstance(xs[0], (dict, list, tuple)):
                return list(xs[0])
            if n == 'builtins.range' and all(isinstance(x, int) for x in xs) and xs:
                return list(range(*xs))
            if n == 'builtins.map' and False:
                return UNK
        if o == 'call' and a[0].op == 'attr' and a[0].args[1] in ('join', 'format'):
            b = ev(a[0].args[0], m)
            xs = [ev(x, m) for x in a[1]]
            if isinstance(b, str) and not any(x is UNK or isinstance(x, Obj) for x in xs):
                try:
                    return getattr(b, a[0].args[1])(*xs)
                except Exception:
                    return UNK
        return World.hook1(self, t, m)


def iterables(pc):
    return [x[0].args[0] for x in pc if x[0].op == 'iter']


def reach(pc, m):
    """Is the site reached (guards that raise aside)?  A loop over nothing, or over what a filter keeps out, is not."""
    r = holds([y for y in pc if y[2] != 'raise'], m)
    for t in iterables(pc):
        if r is False:
            break
        v = over(t, m)
        if v is False:
            return False
        if v is UNK:
            r = UNK
    return r


def over(t, m):
    """Does the iteration over t take place for the element at hand?"""
    while t.op == 'call' and t.args[1] and (t.args[0].op == 'glob' and t.args[0].args[0] in ('builtins.sorted', 'builtins.list', 'builtins.reversed', 'builtins.enumerate', 'builtins.iter')):
        t = t.args[1][0]
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('items', 'keys', 'values') and t.args[0].args[0].op == 'comp':
        t = t.args[0].args[0]
    if t.op == 'comp':
        c = t.args[3] if len(t.args) > 3 and isinstance(t.args[3], T) else TRUE
        v = truth(c, m)
        if v is False:
            return False
        w = over(t.args[2], m)
        return False if w is False else True if v is True and w is True else UNK
    v = ev(t, m)
    if isinstance(v, (list, tuple, dict)) and not v:
        return False
    return True


def put(it, cont):
    """(key, value, pc) put into a dict, by whatever means; None stands for what cannot be read."""
    out = []
    for e in it.events:
        if e.kind == 'setitem' and e.fn == cont:
            out.append((e.args[0], e.args[1], e.pc))
        elif e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[0] == cont and e.fn.args[1] in ('update', 'setdefault', '__setitem__'):
            if e.fn.args[1] != 'update' and len(e.args) == 2:
                out.append((e.args[0], e.args[1], e.pc))
            else:
                out += [(const(k), v, e.pc) for k, v in e.kw.items()]
                for x in e.args:
                    out += pairs(it, x, e.pc)
    for obj, meth, x, pc, loc in it.appends:
        if obj == cont and meth == 'update':
            out += pairs(it, x, pc)
    for obj, lit, pc in it.literals:
        if obj == cont:
            for k, v in lit:
                out += [(k, v, pc)] if k is not None else pairs(it, v, pc)
    return out


def pairs(it, x, pc):
    pc = tuple(pc)
    if x.op == 'phi':
        return pairs(it, x.args[1], pc + ((x.args[0], True, 'br'),)) + pairs(it, x.args[2], pc + ((x.args[0], False, 'br'),))
    if x.op == 'comp':
        v = x.args[1]
        pc = pc + ((mk('iter', x), True, 'loop'),)
        return [(v.args[0], v.args[1], pc)] if v.op == 'tuple' and len(v.args) == 2 else [None]
    if x.op == 'call' and x.args[0] == glob('builtins.dict'):
        return [y for a in x.args[1] for y in pairs(it, a, pc)] + [(const(k), v, pc) for k, v in x.args[2]]
    if x.op == 'newdict':
        return put(it, x)
    if x.op in ('tuple', 'listv'):
        return [(a.args[0], a.args[1], pc) if a.op == 'tuple' and len(a.args) == 2 else None for a in x.args]
    if x.op == 'newlist':
        return [None]
    if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'items' or x.op == 'call':
        return [(mk('item', mk('elem', x), const(0)), mk('item', mk('elem', x), const(1)), pc + ((mk('iter', x), True, 'loop'),))]
    # a mapping
    its = mk('call', mk('attr', x, 'items'), (), ())
    return [(mk('item', mk('elem', its), const(0)), mk('item', mk('elem', its), const(1)), pc + ((mk('iter', its), True, 'loop'),))]


ATTRS = {'x': tensor((4,), I32), '_y': tensor((4,), I32), 'aux_labels': tensor((4,), I32), 'w': tensor((4,), F32), 'rag': ragged(), 'aux_labels2': ragged(),
         'x_filler': 7, 'name': 'text', 'labels_sym': 'symbols', 'aux_labels_sym': 'symbols'}


def same(v, x, m):
    """True, False or UNK: the term v has the value x."""
    y = ev(v, m)
    if y is UNK:
        y = ev(strip(v), m)
    if y is UNK:
        return UNK
    return y is x or (not isinstance(x, Obj) and y == x)


def run_as_dict(c, P, known):
    q = F + '.as_dict'
    it = analyze(P, q, known=known, inline=c02.inlined)
    loc = P.loc(P.funcs[q], P.funcs[q].node)
    ents = pairs(it, it.result, ()) if it.result is not None else [None]
    open_ = any(x is None for x in ents)
    ents = [x for x in ents if x is not None]
    m = W(dict(self=fsa())).model()
    ok = [v for k, v, pc in ents if ev(k, m) == 'arcs' and reach(pc, m) is not False]
    arcs = [v for v in ok if strip(v) == mk('call', glob('_k2.fsa_to_tensor'), (mk('attr', param('self'), 'arcs'),), ()) or show(strip(v)).startswith('_k2.fsa_to_tensor(')]
    c.check(bool(arcs) or open_ and not ok, 'as_dict', 'arcs', loc, 'the dict does not hold the arcs (as a tensor) under "arcs"')
    for name, val in ATTRS.items():
        r = False
        for vec in (True, False):
            mm = W(dict(self=fsa(vec=vec, attrs={name: val}))).model()
            for k, v, pc in ents:
                kk = ev(k, mm)
                if kk is UNK:
                    if kind_iter(pc, k, val) and reach(pc, mm) is not False:
                        r = r or UNK
                    continue
                if kk == name and reach(pc, mm) is not False and same(v, val, mm) is not False:
                    r = True
        c.check(r is True or r is UNK or open_, 'as_dict', 'attribute %s (%s)' % (name, desc(val)), loc, 'an attribute of this kind is not put into the dict under its name')
    # the value of one attribute under the name of another
    for name, val in ATTRS.items():
        mm = W(dict(self=fsa(attrs={name: val}))).model()
        for k, v, pc in ents:
            if ev(k, mm) == name and reach(pc, mm) is True:
                c.check(same(v, val, mm) is not False, 'as_dict', 'value of %s' % name, loc, 'puts another value under the name of the attribute')


def kind_iter(pc, k, val):
    t = (' '.join(show(x) for x in iterables(pc)) + show(k)).replace('_non_tensor_attr', '#')
    return '__dict__' in t or ('_tensor_attr' in t if isinstance(val, Obj) else '#' in t)


def desc(v):
    if isinstance(v, Obj):
        return 'ragged' if v.types[0] == RAGGED else 'tensor of ' + str(v.attrs['dtype']).split('.')[-1]
    return type(v).__name__


def run_from_dict(c, P, known):
    q = F + '.from_dict'
    it = analyze(P, q, known=known, inline=c02.inlined)
    loc = P.loc(P.funcs[q], P.funcs[q].node)
    new = [x for x in subterms(it.result) if x.op == 'new' and x.args[0] == F]
    if not new:
        c.notes.append('from_dict: result not a new Fsa in recognised form')
        return
    new = new[0]
    sets = [e for e in it.events if e.kind == 'setattr' and e.fn == new]
    arcs = tensor((4, 4), I32)
    m = W(dict(dict_in={'arcs': arcs})).model()
    a = [e for e in sets if e.args[0] == const('arcs')]
    c.check(any('arcs' in show(e.args[1]) and any(ev(y, m) is arcs for y in subterms(e.args[1])) for e in a) if a else True, 'from_dict', 'arcs', loc, 'the arcs of the result are not those of the dict')
    for name, val in ATTRS.items():
        r = False
        for order in ({'arcs': arcs, name: val}, {name: val, 'arcs': arcs}):
            got = False
            for pick in (0, 1):
                mm = W(dict(dict_in=order), pick).model()
                for e in sets:
                    k = ev(e.args[0], mm)
                    h = reach(e.pc, mm)
                    if h is False:
                        continue
                    if k is UNK:
                        got = got or UNK
                    elif k == name and same(e.args[1], val, mm) is not False:
                        got = True
            r = got if r is False else (r and got)
        c.check(bool(r), 'from_dict', 'attribute %s (%s)' % (name, desc(val)), loc, 'an entry of the dict of this kind does not become an attribute of the FSA')
    for pick in (0, 1):
        for name, val in ATTRS.items():
            mm = W(dict(dict_in={name: val, 'arcs': arcs}), pick).model()
            for e in sets:
                if ev(e.args[0], mm) == name and not (is_const(e.args[0]) and name not in ('aux_labels',)) and reach(e.pc, mm) is True:
                    c.check(same(e.args[1], val, mm) is not False, 'from_dict', 'value of %s' % name, P.loc(P.funcs[q], P.funcs[q].node), 'gives the attribute another value')


def listed(it, lst, args, val, name=None):
    """Does the list hold val?  True/False/UNK; the list is built by appends, a comprehension or a conversion of one."""
    mm = W(args).model()
    r = False
    seen = False
    for obj, meth, x, pc, loc in it.appends:
        if obj != lst:
            continue
        seen = True
        h = reach(pc, mm)
        if h is False:
            continue
        if meth in ('extend', 'update'):
            s = listed(it, x, args, val)
        else:
            s = same(x, val, mm)
        if s is True and h is True:
            return True
        if s is not False:
            r = UNK
    if lst.op == 'comp':
        seen = True
        conds = [y for y in lst.args[3:] if isinstance(y, T)] + [z for y in lst.args[3:] if isinstance(y, tuple) for z in y if isinstance(z, T)]
        s = same(lst.args[1], val, mm)
        h = holds([(y, True, 'br') for y in conds], mm)
        if s is True and h is True:
            return True
        if s is not False and h is not False:
            r = UNK
    if lst.op in ('tuple', 'listv'):
        for x in lst.args:
            s = same(x, val, mm)
            if s is True:
                return True
            if s is UNK:
                r = UNK
        return r
    if not seen and lst.op not in ('newlist',):
        return UNK
    return r


LABELS = {'x': (tensor((4,), I32), 'extra_labels'), '_y': (tensor((4,), I32), 'extra_labels'), 'aux_labels': (tensor((4,), I32), 'extra_labels'), 'rag': (ragged(), 'ragged_labels'),
          'aux_labels2': (ragged(), 'ragged_labels'), 'w': (tensor((4,), F32), None)}


def base_list(t):
    """The list behind a list of slices of its elements."""
    return t


def run_to_str(c, P, known):
    for q, selfname, vec in (('k2.utils.to_str', 'fsa', False), (F + '.to_str', 'self', False), (F + '.to_str', 'self', True)):
        it = analyze(P, q, known=known, inline=c02.inlined)
        loc = P.loc(P.funcs[q], P.funcs[q].node)
        m = W({selfname: fsa(vec=vec), 'openfst': True}).model()
        calls = [e for e in it.events if e.kind == 'call' and e.fn == glob('_k2.fsa_to_str') and reach(e.pc, m) is not False]
        tag = '%s of %s' % (q, 'an FsaVec' if vec else 'a single FSA')
        c.need(bool(calls) or q != 'k2.utils.to_str', 'no call of fsa_to_str in ' + q)
        for e in calls:
            of = arg(e, 1, 'openfst')
            c.check(of is not None and ev(of, m) in (True, UNK), 'to_str', tag + ': openfst', e.loc, 'does not pass on the option openfst')
            off = W({selfname: fsa(vec=vec), 'openfst': False}).model()
            c.check(of is None or ev(of, off) in (False, UNK), 'to_str', tag + ': not openfst', e.loc, 'writes the OpenFst format when it was not asked for')
            for name, (val, want) in LABELS.items():
                args = {selfname: fsa(vec=vec, attrs={name: val}), 'openfst': False}
                for i, w in ((2, 'extra_labels'), (3, 'ragged_labels')):
                    lst = arg(e, i, w)
                    r = listed(it, sliced(lst), args, val) if lst is not None else False
                    if w == want:
                        c.check(r is not False, 'to_str', '%s: %s %s' % (tag, name, desc(val)), e.loc, 'labels of this kind are not written (%s)' % w)
                    else:
                        c.check(r is not True, 'to_str', '%s: %s %s not in %s' % (tag, name, desc(val), w), e.loc, 'an attribute of this kind must not be written as %s' % w)
            # order of the columns
            for i, w in ((2, 'extra_labels'), (3, 'ragged_labels')):
                lst = arg(e, i, w)
                if lst is None:
                    continue
                for src in sources(it, sliced(lst)):
                    t = show(src)
                    ok = not ('named_tensor_attr' in t and 'sorted(' not in t) or any(x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'sort' for x in it.events)
                    bad = any(x.op == 'call' and (x.args[0] == glob('builtins.reversed') or x.args[0] == glob('builtins.sorted') and dict(x.args[2]).get('reverse') not in (None, FALSE)) for x in subterms(src))
                    c.check(ok and not bad, 'to_str', '%s: order of %s' % (tag, w), e.loc, 'the columns are not in the order of the sorted attribute names, which the reader relies on')
            if vec:
                for i, w in ((2, 'extra_labels'), (3, 'ragged_labels')):
                    lst = arg(e, i, w)
                    if lst is not None:
                        vec_slices(c, it, e, lst, tag + ': ' + w)


def sources(it, lst):
    out = []
    for obj, meth, x, pc, loc in it.appends:
        if obj == lst:
            out += iterables(pc)
    if lst.op == 'comp':
        out += [x for x in lst.args[2:3] if isinstance(x, T)]
    return out


def sliced(t):
    """The list whose elements are cut, when t is [x[a:b] for x in list]."""
    if t.op == 'comp':
        v, src = t.args[1], t.args[2]
        while isinstance(src, T) and src.op == 'iter':
            src = src.args[0]
        if cut(v) is not None and isinstance(src, T):
            return src
    return t


def cut(v):
    if v.op == 'item' and isinstance(v.args[1], T) and v.args[1].op == 'slice':
        return v.args[0], v.args[1].args
    if v.op == 'phi':
        x, y = cut(v.args[1]), cut(v.args[2])
        return x if x is not None else y
    for x in subterms(v):
        if x.op == 'slice':
            return v, x.args
    return None


def vec_slices(c, it, e, lst, tag):
    """Labels of one FSA of a vector: from its first arc, as many as it has."""
    arcs = e.args[0] if e.args else None
    if arcs is None or lst.op != 'comp':
        return
    cuts = {x.args for x in subterms(lst.args[1]) if x.op == 'slice'}
    c.check(bool(cuts) or lst.op != 'comp', 'to_str', tag + ' cut', e.loc, 'writes the labels of the whole vector beside the arcs of one FSA')
    if not (arcs.op == 'item' and arcs.args[1] == const(0)):
        return
    idx = arcs.args[0]
    start = mk('item', idx, const(1))
    for lo, hi, *st in cuts:
        n = {'n': 0}
        mm = {start: 10}
        size = {show(mk('item', idx, const(0))): 1}

        def hook(t, m):
            if t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and mentions(t, arcs):
                return 3
            if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('num_elements', 'numel', 'size') and mentions(t, arcs):
                return 3
            if t.op == 'call' and t.args[0] == glob('builtins.len') and mentions(t, arcs):
                return 3
            return UNK
        mm[HOOK] = hook
        a, b = ev(lo, mm), ev(hi, mm)
        c.check(a in (10, UNK) and b in (13, UNK), 'to_str', tag + ' range', e.loc, 'the labels written beside the arcs of one FSA of the vector are not those of its arcs')


def mentions(t, x):
    return any(y == x for y in subterms(t))


def run_from_str(c, P, known):
    q = F + '.from_str'
    it = analyze(P, q, known=known, inline=c02.inlined)
    loc = P.loc(P.funcs[q], P.funcs[q].node)
    calls = [e for e in it.events if e.kind == 'call' and e.fn == glob('_k2.fsa_from_str')]
    c.need(bool(calls), 'no call of fsa_from_str in from_str')
    none = dict(acceptor=None, num_aux_labels=None, aux_label_names=None, ragged_label_names=[], openfst=False, s='text')
    for opt, n, names in (({}, 0, []), (dict(acceptor=True), 0, []), (dict(acceptor=False), 1, ['aux_labels']), (dict(num_aux_labels=0), 0, []), (dict(num_aux_labels=1), 1, ['aux_labels']),
                          (dict(num_aux_labels=3), 3, ['aux_labels', 'aux_labels2', 'aux_labels3']), (dict(aux_label_names=['p', 'q']), 2, ['p', 'q']), (dict(aux_label_names=[]), 0, []),
                          (dict(ragged_label_names=['r', 's', 't']), 0, [])):
        for of in (True, False):
            args = dict(none, openfst=of, **opt)
            m = W(args).model()
            tag = ', '.join('%s=%s' % kv for kv in opt.items()) or 'no option'
            for e in calls:
                if reach(e.pc, m) is False:
                    continue
                v = arg(e, 1, 'num_aux_labels')
                c.check(v is not None and ev(v, m) in (n, UNK), 'from_str', 'number of labels: ' + tag, e.loc, 'expects a different number of extra labels than the options say')
                v = arg(e, 2, 'num_ragged_labels')
                c.check(v is not None and ev(v, m) in (len(args['ragged_label_names']), UNK), 'from_str', 'number of ragged labels: ' + tag, e.loc, 'expects a different number of ragged labels than there are names')
                v = arg(e, 3, 'openfst')
                c.check(v is not None and ev(v, m) in (of, UNK) or v is None and not of, 'from_str', 'openfst=%s: %s' % (of, tag), e.loc, 'reads the other format than the one asked for')
                v = arg(e, 0, 's')
                c.check(v is not None and ev(v, m) in ('text', UNK), 'from_str', 'text', e.loc, 'does not read the text given')
            # the names
    res = calls[0].res if calls[0].res is not None else mk('call', calls[0].fn, tuple(calls[0].args), tuple(sorted(calls[0].kw.items())))
    sets = [e for e in it.events if e.kind == 'setattr' and not is_const(e.args[0])]
    got = {1: 0, 2: 0}
    for e in sets:
        k, v = e.args
        hit = [i for i in (1, 2) if any(x.op == 'item' and x.args[1] == const(i) and x.args[0].op == 'call' and x.args[0].args[0] == glob('_k2.fsa_from_str') for x in subterms(v))]
        if len(hit) != 1:
            continue
        i = hit[0]
        got[i] += 1
        # position of the name and of the value
        if i == 1:
            row = [x for x in subterms(v) if x.op == 'item' and x.args[0].op == 'item' and x.args[0].args[1] == const(1)]
            kis = [x.args[1] for x in leaves(k) if x.op == 'item' and not is_const(x.args[1])]
            ki = kis[0] if kis else None
            if row and ki is not None:
                ri = row[0].args[1]
                ri0 = ri.args[0] if ri.op == 'tuple' else ri
                if ri.op == 'tuple' and len(ri.args) == 2 and ri.args[0].op == 'slice':
                    c.check(False, 'from_str', 'labels of a name', e.loc, 'takes a column of the label matrix, whose rows are the labels')
                else:
                    same_ = ri0 == ki
                    vals = [(ev(ri0, {HOOK: num(n)}), ev(ki, {HOOK: num(n)})) for n in (0, 1, 5)]
                    c.check(same_ or all(a is UNK or b is UNK or a == b for a, b in vals), 'from_str', 'labels of a name', e.loc, 'gives a name the labels of another position')
        else:
            bases = [x.args[0] for x in leaves(k) if x.op in ('item', 'elem')]
            c.check(not bases or any(x == param('ragged_label_names') for b in bases for x in leaves(b)), 'from_str', 'ragged labels of a name', e.loc, 'gives ragged labels a name that is not from ragged_label_names')
    c.check(got[1] > 0 or not sets, 'from_str', 'extra labels kept', loc, 'the extra labels read do not become attributes')
    c.check(got[2] > 0 or not sets, 'from_str', 'ragged labels kept', loc, 'the ragged labels read do not become attributes')
    q = F + '.from_openfst'
    if q in P.funcs:
        it = analyze(P, q, known=known, inline=lambda x: True)
        names = ('s', 'acceptor', 'num_aux_labels', 'aux_label_names', 'ragged_label_names')
        for e in it.events:
            if e.kind == 'call' and (e.fn == glob('_k2.fsa_from_str') or e.fn == glob('k2.fsa.Fsa.from_str')):
                v = arg(e, 3 if e.fn == glob('_k2.fsa_from_str') else 5, 'openfst')
                c.check(v is not None and v != FALSE, 'from_str', 'from_openfst', e.loc, 'reads the k2 format')
                if e.fn == glob('k2.fsa.Fsa.from_str'):
                    for i, n in enumerate(names):
                        v = arg(e, i, n)
                        c.check(v is not None and any(x == param(n) for x in subterms(v)), 'from_str', 'from_openfst: ' + n, e.loc, 'does not pass on this argument')
    # names for a number of labels
    q = 'k2.fsa.get_aux_label_info'
    if q in P.funcs:
        it = analyze(P, q, known=known, inline=lambda x: True)
        fi = P.funcs[q]
        for n in (0, 1, 2, 4):
            want = ['aux_labels'] + ['aux_labels%d' % k for k in range(2, n + 1)] if n else []
            args = dict(acceptor=None, num_aux_labels=n, aux_label_names=None)
            got = contents(it, args)
            c.check(got is UNK or got == want, 'from_str', 'names of %d labels' % n, P.loc(fi, fi.node), 'the names for a number of labels are not aux_labels, aux_labels2, ...')


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'phi' else [t]


def num(n):
    return lambda t, m: n if t.op in ('elem', 'index', 'loopvar', 'iterval') else UNK


def contents(it, args):
    """The strings appended to local lists, in order; loops unrolled over the values of their range."""
    out, ran = [], []
    for obj, meth, x, pc, loc in it.appends:
        if meth != 'append':
            return UNK
        its = iterables(pc)
        m0 = W(args).model()
        ks = [0]
        if its:
            v = ev(its[-1], m0)
            if not isinstance(v, (list, tuple)):
                return UNK
            ks = range(len(v))
        for k in ks:
            mm = W(args, k).model()
            h = reach(pc, mm)
            if h is False:
                continue
            v = ev(x, mm)
            if h is UNK or v is UNK:
                return UNK
            out.append(v)
    if not it.appends:
        return UNK
    return out


# ---- symbol tables
def has(es, k, v):
    """Is the entry k -> v among the evaluated ones (as far as they are known)?"""
    for a, b in es:
        if (a is UNK or type(a) == type(k) and a == k) and (b is UNK or type(b) == type(v) and b == v):
            return True
    return False


def tab(ids, nxt=None, eps='<eps>'):
    ids = dict(ids)
    return Obj([S], dict(_id2sym=ids, _sym2id={v: k for k, v in ids.items()}, eps=eps, _next_available_id=max(ids) + 1 if nxt is None else nxt),
               {'__len__': len(ids)})


def parts(t, mm):
    """Subterms of t that matter: the branches taken, the elements kept."""
    yield t
    if t.op == 'phi':
        v = truth(t.args[0], mm)
        for x, keep in ((t.args[1], v is not False), (t.args[2], v is not True)):
            if keep:
                yield from parts(x, mm)
        return
    if t.op == 'comp':
        if over(t, mm) is False:
            return
        yield from parts(t.args[1], mm)
        return
    for x in t.args:
        if isinstance(x, T):
            yield from parts(x, mm)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from parts(y, mm)


def texts(it, args, pick):
    """Pieces of text a function writes or returns for one entry, and whether some piece is not known."""
    mm = W(args, pick).model()
    out, sites, dark = [], 0, False

    def add(t, pc):
        nonlocal sites, dark
        sites += 1
        if reach(pc, mm) is False:
            return
        vs = [v for v in (ev(x, mm) for x in parts(t, mm)) if isinstance(v, str)]
        out.extend(vs)
        if not [v for v in vs if len(v.split()) > 1]:
            dark = dark or any(x.op in ('elem', 'item') and ev(x, mm) is UNK for x in parts(t, mm))

    for e in it.events:
        if e.kind == 'call' and e.fn == glob('builtins.print'):
            sites += 1
            if reach(e.pc, mm) is False:
                continue
            xs = [ev(x, mm) for x in e.args]
            sep, end = (ev(e.kw[k], mm) if k in e.kw else d for k, d in (('sep', ' '), ('end', '\n')))
            if any(x is UNK or isinstance(x, Obj) for x in xs) or not isinstance(sep, str) or not isinstance(end, str):
                dark = True
            else:
                out.append(sep.join(str(x) for x in xs) + end)
        elif e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] in ('write', 'writelines', 'write_text'):
            for x in e.args:
                add(x, e.pc)
        elif e.kind == 'inplace' and e.args:
            add(e.args[-1], e.pc)
    for obj, meth, x, pc, loc in it.appends:
        add(x, pc)
    if isinstance(it.result, T) and not sites:
        add(it.result, ())
    return out, dark or not sites


CHANGES = ('.lower', '.upper', '.casefold', '.title', '.capitalize', '.swapcase', '.expandtabs', '.translate')


def run_symbols(c, P, known):
    inl = lambda x: x.startswith('k2.symbol_table')
    get = lambda n: analyze(P, S + '.' + n, known=known, inline=inl)
    loc = lambda n: P.loc(P.funcs[S + '.' + n], P.funcs[S + '.' + n].node)
    for n in ('to_str', 'to_file', 'from_str', 'from_file', 'add', 'get', '__getitem__', '__contains__', '__post_init__'):
        c.need(S + '.' + n in P.funcs, 'SymbolTable.%s is gone' % n)
    # writing
    items = {0: '<eps>', 1: 'a', 12: 'é', 3: '7', 1000000: '#0'}
    for n in ('to_str', 'to_file'):
        it = get(n)
        for pick, (i, s) in enumerate(items.items()):
            tx, dark = texts(it, dict(self=tab(items), filename='f'), pick)
            lines = [t for t in tx if [s, str(i)] == t.split()]
            c.check(bool(lines) or dark, 'symbols written', '%s: symbol %r of id %d' % (n, s, i), loc(n), 'does not write a line "symbol id" for this entry')
            ended = not lines or any('\n' in t for t in lines) or any("'\\n'.join" in show(x) for e in it.events for x in [e.fn] if isinstance(x, T))
            c.check(ended, 'symbols written', '%s: line of %r' % (n, s), loc(n), 'entries are not on lines of their own')
    # reading
    it = get('from_str')
    res = it.result
    new = [x for x in subterms(res) if x.op == 'new' and x.args[0] == S]
    if new:
        kw = dict(new[0].args[2])
        pos = new[0].args[1]
        i2s = kw.get('_id2sym', pos[0] if len(pos) > 0 else None)
        s2i = kw.get('_sym2id', pos[1] if len(pos) > 1 else None)
        eps = kw.get('eps', pos[3] if len(pos) > 3 else None)
        for line, sym, i in (('x 7', 'x', 7), ('x\t7', 'x', 7), ('  x \t  7 ', 'x', 7), ('é 3', 'é', 3), ('1 2', '1', 2), ('<eps> 0', '<eps>', 0), ('ε 0', 'ε', 0), ('#0 200000', '#0', 200000)):
            m = W(dict(s=line)).model()
            fired = [e for e in it.events if e.kind == 'raise' and holds(e.pc, m) is True]
            c.check(not fired, 'symbols read', 'line %r accepted' % line, fired[0].loc if fired else loc('from_str'), 'rejects a line in the documented format')
            for what, d, k, v in (('symbol of the id', i2s, i, sym), ('id of the symbol', s2i, sym, i)):
                if d is None or d.op != 'newdict':
                    continue
                es = [(ev(a, m), ev(b, m)) for a, b, pc in [x for x in put(it, d) if x] if reach(pc, m) is not False]
                c.check(has(es, k, v), 'symbols read', '%s of line %r' % (what, line), loc('from_str'), 'does not put this entry into the table')
        m = W(dict(s='')).model()
        c.check(not [e for e in it.events if e.kind == 'raise' and holds(e.pc, m) is True], 'symbols read', 'empty line', loc('from_str'), 'rejects an empty line')
        for d, what in ((s2i, 'symbol'), (i2s, 'id')):
            if d is None or d.op != 'newdict':
                continue
            m = W(dict(s='x 7'), filled=(d,)).model()
            vs = [reach(e.pc, m) for e in it.events if e.kind == 'raise']
            c.check(any(v is not False for v in vs), 'symbols read', 'second line of one ' + what, loc('from_str'), 'accepts two lines with the same %s: the table is not one-to-one' % what)
        c.check(eps is not None and not is_const(eps), 'symbols read', 'epsilon', loc('from_str'), 'the symbol of id 0 in the text does not become epsilon')
    else:
        c.notes.append('from_str: result in a form that is not recognised')
    # files
    enc = {}
    for n in ('to_file', 'from_file'):
        for e in get(n).events:
            if e.kind != 'call':
                continue
            nm = e.fn.args[0] if e.fn.op == 'glob' else '.' + e.fn.args[1] if e.fn.op == 'attr' else ''
            if nm in ('builtins.open', 'io.open', 'codecs.open', '.open', '.write_text', '.read_text'):
                v = e.kw.get('encoding')
                if v is None and nm == 'builtins.open' and len(e.args) > 3:
                    v = e.args[3]
                enc.setdefault(n, []).append((str(cval(v)).lower().replace('_', '-').replace('utf8', 'utf-8') if v is not None and is_const(v) else None if v is None else UNK, e.loc))
    for n, vs in enc.items():
        for v, l in vs:
            c.check(v is not None, 'files', n + ': encoding', l, 'the encoding depends on the locale, so that symbols written in one place cannot be read in another')
    # the text goes between the file and from_str / to_str as it is: only blanks at its ends may go
    for e in get('from_file').events:
        if e.kind == 'call' and isinstance(e.res, T) and e.res.op == 'call' and (callee(e.res).endswith('SymbolTable.from_str') or callee(e.res) == '.from_str') and e.args:
            t = e.args[-1]
            bad = [callee(x) for x in subterms(t) if x.op == 'call' and callee(x) in CHANGES]
            c.check(not bad, 'files', 'from_file: text as it is', e.loc, 'the text of the file goes through %s before it is read' % ', '.join(bad))
    if len(enc) == 2:
        a, b = enc['to_file'][0][0], enc['from_file'][0][0]
        c.check(a == b or UNK in (a, b) or None in (a, b), 'files', 'one encoding', enc['from_file'][0][1], 'writes %s but reads %s' % (a, b))
    # adding
    it = get('add')
    base = {0: '<eps>', 1: 'a', 4: 'd'}
    for args, i, nxt in ((dict(symbol='b', index=None), 5, 6), (dict(symbol='b', index=2), 2, 5), (dict(symbol='b', index=5), 5, 6), (dict(symbol='b', index=7), 7, 8), (dict(symbol='a', index=None), 1, 5),
                         (dict(symbol='d', index=9), 4, 5)):
        t = tab(base)
        m = W(dict(args, self=t)).model()
        fresh = args['symbol'] not in t.attrs['_sym2id']
        tag = 'add(%r, %r) to ids 0, 1, 4' % (args['symbol'], args['index'])
        c.check(not [e for e in it.events if e.kind == 'raise' and holds(e.pc, m) is True], 'symbols added', tag + ' accepted', loc('add'), 'rejects a new symbol')
        v = ev(it.result, m)
        c.check(v in (i, UNK), 'symbols added', tag + ' result', loc('add'), 'returns another id than the one of the symbol')
        for d, k, x in (('_id2sym', i, args['symbol']), ('_sym2id', args['symbol'], i)):
            sets = [(ev(a, m), ev(b, m)) for a, b, pc in [y for y in put(it, mk('attr', param('self'), d)) if y] if reach(pc, m) is not False]
            if fresh:
                c.check(has(sets, k, x), 'symbols added', tag + ' ' + d, loc('add'), 'does not enter the symbol into %s' % d)
            else:
                c.check(all(has([y], k, x) for y in sets), 'symbols added', tag + ' ' + d, loc('add'), 'changes the entry of a symbol that is in the table')
        now = t.attrs['_next_available_id']
        r = {now}
        for e in it.events:
            if e.kind == 'setattr' and e.args[0] == const('_next_available_id'):
                h = reach(e.pc, m)
                v = ev(e.args[1], m)
                if h is True:
                    r = {v}
                elif h is UNK:
                    r |= {v}
        ok = any(v is UNK or isinstance(v, int) and (v not in {**base, i: 1}) and v >= nxt for v in r)
        c.check(ok, 'symbols added', tag + ' next id', loc('add'), 'the id for the next symbol may be in use or skip back')
    # a table made from dicts
    it = get('__post_init__')
    for ids in ({0: '<eps>', 1: 'a'}, {0: '<eps>', 9: 'z', 3: 'c'}, {2: 'b'}):
        m = W(dict(self=tab(ids, nxt=1))).model()
        vs = [ev(e.args[1], m) for e in it.events if e.kind == 'setattr' and e.args[0] == const('_next_available_id') and reach(e.pc, m) is not False]
        c.check(bool(vs) and (vs[-1] is UNK or vs[-1] not in ids and vs[-1] > 0), 'symbols added', 'next id of a table with ids %s' % sorted(ids), loc('__post_init__'), 'the id for the next symbol may be in use')
    for ids, eps, ok in (({5: '<eps>'}, '<eps>', False), ({2: 'E', 1: 'a'}, 'E', False), ({5: 'a'}, '<eps>', True), ({0: 'E', 5: 'a'}, 'E', True), ({0: 'a', 5: '<eps>'}, '<eps>', False)):
        fired = None
        for pick in range(2):
            m = W(dict(self=tab(ids, eps=eps)), pick).model()
            for e in it.events:
                if e.kind == 'raise' and reach(e.pc, m) is True and all(truth(x[0], m) is x[1] for x in e.pc if x[2] != 'raise' and x[0].op != 'iter'):
                    fired = e
        c.check((fired is None) == ok, 'symbols added', 'a table with ids %s and epsilon %s' % (ids, eps), loc('__post_init__'),
                'rejects a table that is in order' if ok else 'accepts a table in which epsilon has another id than 0')
    # tables joined and compared
    it = get('merge')
    new = [x for x in subterms(it.result) if x.op == 'new' and x.args[0] == S]
    if new:
        kw, pos = dict(new[0].args[2]), new[0].args[1]
        a, b = {0: '<eps>', 1: 'a', 2: 'b'}, {0: '<eps>', 1: 'a', 3: 'c'}
        for i, (f, flip) in enumerate((('_id2sym', False), ('_sym2id', True))):
            d = kw.get(f, pos[i] if len(pos) > i else None)
            if d is None:
                continue
            got, dark = [], False
            for pick in range(3):
                mm = W(dict(self=tab(a), other=tab(b)), pick).model()
                for x in pairs(it, d, ()):
                    if x is None:
                        dark = True
                    elif reach(x[2], mm) is not False:
                        got.append((ev(x[0], mm), ev(x[1], mm)))
            for k, v in {**a, **b}.items():
                k, v = (v, k) if flip else (k, v)
                c.check(dark or has(got, k, v), 'tables', 'merge: %s[%r]' % (f, k), loc('merge'), 'loses an entry of one of the tables')
        e = kw.get('eps', pos[3] if len(pos) > 3 else None)
        c.check(e is not None and not is_const(e), 'tables', 'merge: eps', loc('merge'), 'loses the epsilon symbol')
    it = get('__eq__')
    p = [x.arg for x in P.funcs[S + '.__eq__'].node.args.args][1]
    one = {0: '<eps>', 1: 'a', 2: 'b'}
    for name, other in (('the same', one), ('another id', {0: '<eps>', 1: 'a', 3: 'b'}), ('another symbol', {0: '<eps>', 1: 'a', 2: 'c'}), ('ids exchanged', {0: '<eps>', 1: 'b', 2: 'a'}),
                        ('one more', {0: '<eps>', 1: 'a', 2: 'b', 3: 'c'}), ('one less', {0: '<eps>', 1: 'a'})):
        for x, y, tag in ((one, other, ''), (other, one, ' (reversed)')):
            no, maybe = False, False
            for pick in range(4):
                mm = W({'self': tab(x), p: tab(y)}, pick).model()
                for e in it.events:
                    if e.kind == 'return' and str(e.fn).endswith('__eq__'):
                        h = reach(e.pc, mm)
                        v = truth(e.args[0], mm)
                        if h is True and v is False:
                            no = True
                        if h is not False and v is not True:
                            maybe = True
            want = x == y
            c.check(not no if want else no or maybe, 'tables', '__eq__: %s%s' % (name, tag), loc('__eq__'), 'the answer for two known tables is wrong')
    # looking up
    base = {0: '<eps>', 1: 'a', 4: '1'}
    for n in ('get', '__getitem__', '__contains__'):
        it = get(n)
        p = [x.arg for x in P.funcs[S + '.' + n].node.args.args][1]
        cases = ((1, True), (7, False), ('a', True), ('zz', False), ('1', True), (0, True), (4, True), ('<eps>', True)) if n == '__contains__' else ((1, 'a'), ('a', 1), (4, '1'), ('1', 4), (0, '<eps>'), ('<eps>', 0))
        for k, want in cases:
            v = ev(it.result, W({'self': tab(base), p: k}).model())
            c.check(v is UNK or v == want and type(v) == type(want), 'symbols looked up', '%s(%r)' % (n, k), loc(n), 'the answer for a known table is wrong')


def run(c, P=None):
    P = P or Program()
    known = load_known()
    run_as_dict(c, P, known)
    run_from_dict(c, P, known)
    run_to_str(c, P, known)
    run_from_str(c, P, known)
    run_symbols(c, P, known)
    q = 'k2.utils.to_tensor'
    it = analyze(P, q, known=known, inline=c02.inlined)
    c.check(show(strip(it.result)) in ('_k2.fsa_to_tensor($fsa.arcs)',), 'as_dict', q, P.loc(P.funcs[q], P.funcs[q].node), 'is not the arcs of the FSA')
    c.analysed = dict(rules=len(c.obl), functions=['as_dict', 'from_dict', 'to_str', 'from_str', 'from_openfst', 'get_aux_label_info', 'SymbolTable.*'])
    c.floor('as_dict', 5)
    c.floor('from_dict', 5)


if __name__ == '__main__':
    harness.main('C11', 'abstract interpretation of the writers and readers: the entries, columns and lines they produce and consume, evaluated for every kind of attribute, option and table entry', run)
