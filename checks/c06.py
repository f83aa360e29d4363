#!/usr/bin/env python3
"""C06: the options given to an operation are the ones every computation in it runs with."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json
import re
from options import *
import harness

REF = os.path.join(VERIF, 'spec', 'options.json')
# options that by design only take part in validation
ONLY_CHECKED = {
    'k2.dense_fsa_vec.DenseFsaVec.__init__(allow_truncate)': 'how far a segment may reach beyond the frames: decides rejection only',
    'k2.rnnt_loss.get_hat_logprobs_pruned(termination_symbol)': 'HAT needs the symbol to be 0; nothing else depends on it',
}


def parse(row):
    name, _, rest = row.partition('(')
    rest = rest[:-1]
    out, depth, cur = [], 0, ''
    for ch in rest:
        if ch in '{[(':
            depth += 1
        if ch in '}])':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    slots = {}
    for s in out:
        k, _, v = s.partition('=')
        slots[k] = v
    return name, slots


VAGUE = ('*', '{}')


def same_slot(a, b, opts):
    if a == b:
        return True
    if a in VAGUE and b in VAGUE:
        return True
    # data that is no option: known to differ only when both sides name one input
    if a in VAGUE or b in VAGUE:
        o = b if a in VAGUE else a
        return o not in opts and not o.startswith('=') and not o.startswith('{') and not o.startswith('self:')
    return False


def same(a, b, opts):
    return all(k in b and same_slot(a[k], b[k], opts) for k in a)


def defaults_equal(a, b):
    if a == b:
        return True
    try:
        return ast.literal_eval(a) == ast.literal_eval(b) and type(ast.literal_eval(a)) is type(ast.literal_eval(b))
    except Exception:
        pass
    return norm_const(a) == norm_const(b)


def norm_const(s):
    try:
        t = ast.parse(s, mode='eval').body
    except SyntaxError:
        return s
    if isinstance(t, ast.Call) and ast.unparse(t.func) == 'float' and len(t.args) == 1 and isinstance(t.args[0], ast.Constant):
        return 'float %r' % float(t.args[0].value)
    if ast.unparse(t) in ('math.inf', 'torch.inf', 'numpy.inf', 'np.inf'):
        return 'float inf'
    try:
        v = eval(compile(ast.Expression(t), '', 'eval'), {'__builtins__': {}})
        return '%s %r' % (type(v).__name__, v)
    except Exception:
        return ast.unparse(t)


def parse_sigma(s):
    return dict(x.split('=') for x in s.split(',')) if s else {}


def used_params(it, fi, all=False):
    """Parameters and attributes of self that have an effect."""
    out = set()

    def see(t):
        if isinstance(t, T):
            for x in subterms(t):
                if x.op == 'param':
                    out.add(x.args[0])
                if x.op == 'attr' and x.args[0].op == 'param':
                    out.add(path(x))
        elif isinstance(t, (tuple, list)):
            for x in t:
                see(x)
    for e in it.events:
        # an option that is only validated or printed has no effect
        if not all and (e.kind == 'raise' or e.kind == 'call' and isinstance(e.fn, T) and e.fn.op == 'glob' and (e.fn.args[0] == 'builtins.print' or e.fn.args[0].split('.')[0] in ('logging', 'warnings'))):
            continue
        see(e.fn)
        see(list(e.args))
        see(list(dict(e.kw).values()))
        for a, _, k in e.pc:
            if all or k not in ('raise', 'try'):
                see(a)
    return out


def run(c):
    ref = json.load(open(REF))
    P, known = Program(), load_known()
    c.need(P.funcs, 'no Python sources found')
    nrows = 0
    for q in sorted(ref):
        if q not in P.funcs:
            c.bad('interface', q, PKGLOC(q), 'the public function is gone')
            continue
        fi = P.funcs[q]
        loc = P.loc(fi, fi.node)
        d = defaults(fi)
        for k, v in sorted(ref[q]['defaults'].items()):
            # a default may be given by the caller of a renamed parameter: the parameter itself must stay
            c.check(k in d and defaults_equal(v, d[k]), 'default value', '%s(%s)' % (q, k), loc,
                    'option %s: documented default %s, now %s' % (k, v, d.get(k, 'absent')))
        it = analyze(P, q, known=known, inline=c02.inlined)
        cur = rows(P, q, known, it)
        opts = set(option_params(fi))
        if fi.cls is not None and fi.cls.qual + '.__init__' in P.funcs:
            opts |= {'self:' + x for x in option_params(P.funcs[fi.cls.qual + '.__init__'])}
        for rs, rrows in sorted(ref[q]['rows'].items()):
            rsig = parse_sigma(rs)
            got = []
            for cs, crows in cur.items():
                csig = parse_sigma(cs)
                if any(csig[k] != rsig[k] for k in csig if k in rsig):
                    continue
                if any(k not in rsig and d.get(k) != csig[k] for k in csig):
                    continue
                got += crows
            byname = {}
            for r in rrows:
                n, s = parse(r)
                byname.setdefault(n, []).append((s, r))
            cby = {}
            for r in set(got):
                n, s = parse(r)
                cby.setdefault(n, []).append((s, r))
            for n in sorted(byname):
                nrows += 1
                inst = '%s[%s] %s' % (q, rs, n)
                c.ob('option reaches computation', inst)
                if n not in cby:
                    c.bad('option reaches computation', inst, loc, 'with %s, %s is expected to be computed and is not' % (rs or 'any options', n))
                    continue
                for s, r in byname[n]:
                    if not any(same(s, s2, opts) for s2, _ in cby[n]):
                        c.bad('option reaches computation', inst, loc, 'with %s: expected %s, found %s' % (rs or 'any options', r, '; '.join(x for _, x in cby[n])))
                        break
                else:
                    for s, r in cby[n]:
                        if not any(same(s2, s, opts) for s2, _ in byname[n]):
                            c.bad('option reaches computation', inst, loc, 'with %s: unexpected %s; expected only %s' % (rs or 'any options', r, '; '.join(x for _, x in byname[n])))
                            break
    # every option of every public function is read
    for q in sorted(P.funcs):
        fi = P.funcs[q]
        if not public(q) or fi.parent is not None:
            continue
        ops = option_params(fi)
        if not ops:
            continue
        it = analyze(P, q, known=known, inline=c02.inlined)
        u = used_params(it, fi)
        for p in ops:
            if '%s(%s)' % (q, p) in ONLY_CHECKED:
                u = u | used_params(it, fi, all=True)
            c.check(p in u, 'option is read', '%s(%s)' % (q, p), P.loc(fi, fi.node), 'option %s has no effect: it is never read' % p)
    # ... and what a constructor keeps is read by a method
    for cq, ci in sorted(P.classes.items()):
        init = P.funcs.get(cq + '.__init__')
        if init is None or not public(cq):
            continue
        ops = option_params(init)
        kept = {x: p for x, p in held(P, ci, known).items() if p in ops}
        if not kept:
            continue
        u = set()
        for q, fi in P.funcs.items():
            if fi.cls is not None and fi.cls.qual == cq and fi.node.name != '__init__' and fi.params():
                me = fi.params()[0]
                u |= {x.split('.')[1] for x in used_params(analyze(P, q, known=known, inline=c02.inlined), fi) if x.startswith(me + '.')}
        for x, p in sorted(kept.items()):
            if any(y != x and kept[y] == p and y in u for y in kept):
                continue
            # attributes the class exposes are read by its users
            c.check(x in u or not uses_self(P, cq), 'kept option is read', '%s(%s)' % (cq, p), P.loc(init, init.node),
                    'option %s is kept as .%s, which no method reads' % (p, x))
    c.floor('option reaches computation', 150)
    c.floor('default value', 100)
    c.floor('option is read', 80)
    c.analysed = dict(functions=len(ref), rows=nrows)
    c.assumptions = ['the native functions honour their options (parameter order and defaults are read from the pybind11 sources)']


def uses_self(P, cq):
    return any(fi.cls is not None and fi.cls.qual == cq and fi.node.name != '__init__' for fi in P.funcs.values())


def PKGLOC(q):
    return 'k2/python/' + '/'.join(q.split('.')[:2]) + '.py:1'


TECH = ('interprocedural option-flow analysis: every public function is interpreted abstractly with its callees inlined under every assignment of its boolean options; '
        'each native call it reaches is normalised to (slot = option, constant or data) and compared with the reviewed table')

if __name__ == '__main__':
    harness.main('C06', TECH, run)
