"""Memory that is used after its owner has gone.

Storage made in a function has the root ('f', site, path). Arrays, tensors and
containers hold it; pointers into it, and tensors made around a pointer with no
owner ('w:...' roots), do not. Using or returning one of those when nothing
holds the storage any more is reported.
"""
import re

from cxx import walk, text, shortname
from cxxpath import strip, is_ptr
from cxxalias import FnAlias, field, own, flat, merge

GROW = {'push_back', 'emplace_back', 'resize', 'reserve', 'insert', 'clear', 'assign', 'shrink_to_fit'}
KINDS = {'kLong', 'kInt', 'kInt32', 'kInt64', 'kFloat', 'kFloat32', 'kDouble', 'kFloat64', 'dtype', 'kBool'}
FACTORY = {'zeros', 'ones', 'empty', 'full', 'arange', 'tensor', 'cat', 'stack', 'clone', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'rand', 'randn', 'index_select', 'cumsum', 'where'}


def weak(v):
    return {k: frozenset((a if a.startswith('w:') else 'w:' + a, b, c) for a, b, c in rs) for k, rs in v.items()}


def strong(v):
    return {k: rs2 for k, rs in v.items() for rs2 in [frozenset(r for r in rs if not r[0].startswith('w:'))] if rs2}


def path_ok(p, q):
    """Whether memory of the part p lies in what is kept by holding the part q."""
    p, q = [x.split('.') if x else [] for x in (p, q)]
    for a, b in zip(p, q):
        if a != b:
            return a in OWNS or b in OWNS
    return True


OWNS = ('region_', 'region', 'impl_', 'data_', 'data')


class Life(FnAlias):
    def __init__(self, A, fn):
        self.types = {}
        self.escaped = set()
        self.out = []           # (kind, node, text)
        self.moved = {}
        self.regions = []       # what is stored in the members of a Region
        self.scope = []
        self.bound = set()      # references that keep nothing
        self.uses = self.blobs = self.sites = 0
        FnAlias.__init__(self, A, fn)
        for p in fn.params:
            self.types[p.get('d')] = p['t']

    # ---- storage made here
    def fresh(self, e):
        self.sites += 1
        return {'*': frozenset([('f', id(e), '')])}

    def owns(self, t):
        if not isinstance(t, str):
            return False
        t = t.replace('const ', '').strip()
        return self.array_type(t.rstrip('& ')) and not is_ptr(t) and not t.startswith(('std::shared_ptr<k2::Context', 'std::shared_ptr<k2::Region'))

    def e_ctor(self, e):
        v = FnAlias.e_ctor(self, e)
        if not v and self.owns(e['t']) and not self.torch(e['t']) and not e.get('copy') and not e.get('move') and not e['t'].replace('const ', '').startswith(('std::shared_ptr', 'std::unique_ptr', 'c10::optional', 'std::optional')):
            return self.fresh(e)
        return v

    def e_call(self, e):
        name = shortname(e.get('f', ''))
        if name == 'from_blob':
            return self.blob(e)
        o = strip(e['o']) if e.get('o') is not None else None
        if o is not None and not self.lamdepth:
            t = o['t'].replace('const ', '') if isinstance(o.get('t'), str) else ''
            if name == 'Resize' and 'k2::Array' in t or name in GROW and re.match(r'std::vector<(k2::Arc|[a-z ]+)[,>]', t):
                for a in e['a']:
                    self.ev(a)
                self.replaced(o, e)
                return {}
        if name == 'to' and any(n.get('n') in KINDS or shortname(n.get('f') or '') in KINDS for a in e['a'] for n in walk(a)):
            v = self.ev(o) if o is not None else {}
            return strong(v)
        v = FnAlias.e_call(self, e)
        if not self.owns(e.get('t')):
            if not v and name == 'Data' and e.get('o') is not None:
                return self.ev(e['o'])
            return v
        f = e.get('f', '')
        if v:
            return v
        if f.startswith('k2::') and name not in ('FromTorch', 'ToTorch'):
            cs = self.A.callees(e, self.fn)
            if cs and all((g.d.get('ret') or '&').endswith('&') is False and not is_ptr(g.d.get('ret') or '') for g in cs):
                return self.fresh(e)
        if self.torch(e.get('t')) and name in FACTORY:
            return self.fresh(e)
        return v

    def blob(self, e):
        ptr = self.ev(e['a'][0])
        self.blobs += 1
        dele = None
        for a in e['a'][1:]:
            for n in walk(a):
                if n['k'] == 'lambda':
                    dele = n
        for a in e['a'][1:]:
            if not any(n['k'] == 'lambda' for n in walk(a)):
                self.ev(a)
        if dele is None:
            return weak(ptr)
        kept = {}
        for c in dele['cap']:
            if c.get('ref'):
                continue
            if c.get('i') is not None:
                kept = merge(kept, self.ev(c['i']))
            elif c.get('this'):
                continue
            else:
                kept = merge(kept, self.env.get(c.get('d'), {}))
        held = flat(kept)
        miss = [r for r in flat(ptr) if not any(r[:2] == h[:2] and path_ok(r[2], h[2]) for h in held)]
        if miss or not dele['cap']:
            self.out.append(('shared', e, 'the tensor made around `%s` does not keep its owner: the deleter holds %s' % (text(e['a'][0])[:60], ', '.join(('&' if c.get('ref') else '') + (c.get('n') or 'this') for c in dele['cap']) or 'nothing')))
            return {}
        return ptr

    def e_opcall(self, e):
        v = FnAlias.e_opcall(self, e)
        if not v and e['op'] in ('[]', '()') and self.owns(e.get('t')) and (e.get('f') or '').startswith('k2::'):
            cs = self.A.callees(dict(e, a=e['a'][1:]), self.fn)
            if cs and not any((g.d.get('ret') or '&').endswith('&') for g in cs):
                return self.fresh(e)
        return v

    def stops(self, n):
        # called at the end of each branch: what points nowhere now
        self.settle()
        return FnAlias.stops(self, n)

    def settle(self):
        for d, t in self.types.items():
            if d in self.env and is_ptr(t.rstrip('& ')) and not self.to_owner(t):
                for r in flat(self.env[d]):
                    if r[0] == 'f' and r[1] != 'moved' and not self.held(r):
                        self.env[d] = {'*': frozenset([('f', 'moved', '')])}
                        break

    lamdepth = 0

    def replaced(self, o, e):
        """The storage of the array o may have moved: pointers into it are stale."""
        v = self.ev(o)
        roots = set(r[:2] + (r[2],) for r in flat(v))
        for d, t in list(self.types.items()):
            if d not in self.env or not is_ptr(t.rstrip('& ')) or self.to_owner(t):
                continue
            w = self.env[d]
            if flat(w) & roots:
                self.env[d] = {k: frozenset(('f', 'moved', '') if r in roots else r for r in rs) for k, rs in w.items()}
                self.moved[d] = e

    # ---- who holds it
    def holder(self, k):
        """Whether the entry k of the environment keeps what it names alive."""
        t = self.types.get(k)
        return t is None or k not in self.bound and (self.owns(t) or self.to_owner(t))

    def lvalue(self, e):
        """Whether the expression e names an object that exists anyway."""
        e = strip(e)
        if e is None:
            return False
        k = e['k']
        if k in ('ref', 'idx', 'un'):
            return True
        if k == 'mem':
            return e.get('arrow') or self.lvalue(e.get('o')) or e.get('o') is None
        if k in ('call', 'opcall'):
            cs = self.A.callees(e if k == 'call' else dict(e, a=e['a'][1:]), self.fn) if (e.get('f') or '').startswith('k2') else []
            return bool(cs) and all((g.d.get('ret') or '').endswith('&') for g in cs)
        return False

    def to_owner(self, t):
        t = t.rstrip('& ').replace('const ', '').replace('*const', '*').strip()
        return t.endswith('*') and self.array_type(t[:-1].strip())

    def held(self, r):
        a, b, c = r
        if a.startswith('w:'):
            a = a[2:]
        if a != 'f' or (a, b) in self.escaped:
            return True
        for k, v in self.env.items():
            if not self.holder(k):
                continue
            for kk, rs in v.items():
                for x in rs:
                    if x[:2] != (a, b):
                        continue
                    if kk == '*' and x[2] == '' and c:
                        if any(y[:2] == (a, b) for y in own(v, c)):
                            return True
                    else:
                        return True
        return False

    def e_ref(self, e):
        d = e.get('d')
        v = FnAlias.e_ref(self, e)
        if d in self.types and v:
            t = self.types[d]
            p = d in self.bound or is_ptr(t.rstrip('& ')) and not self.to_owner(t)
            for r in flat(v):
                if (p and r[0] == 'f' or r[0].startswith('w:f')):
                    self.uses += 1
                    if r[:2] == ('f', 'moved'):
                        self.out.append(('outlives', e, '`%s` points into storage that %s' % (e.get('n'), '`%s` had before it was resized' % text(strip(self.moved[d]['o'])) if d in self.moved else 'nothing holds any more, on one branch')))
                        break
                    if not self.held(r):
                        self.out.append(('outlives', e, '`%s` points into storage that nothing holds any more' % e.get('n')))
                        break
        return v

    def bind(self, l, v):
        if l['k'] == 'mem' and l['n'] in ('data', 'deleter_context') and 'k2::Region' in ((strip(l.get('o') or {}) or {}).get('t') or text(l)) or l['k'] == 'mem' and self.region_obj(l):
            self.regions.append((l, text(l.get('o')), flat(v)))
        if l['k'] == 'ref' and (self.types.get(l.get('d')) or '').endswith('&') or l['k'] not in ('ref', 'mem', 'idx', 'opcall') or l['k'] == 'mem' and l.get('arrow') and strip(l.get('o') or {'k': 'this'})['k'] != 'this':
            # what the reference stands for holds it
            for r in flat(v):
                self.escaped.add(r[:2])
        FnAlias.bind(self, l, v)

    def region_obj(self, l):
        return l['n'] in ('data', 'deleter_context') and any(n['k'] == 'ref' and 'k2::Region' in (n.get('t') or '') for n in walk(l.get('o')))

    def region_rule(self):
        for l, o, rs in self.regions:
            if l['n'] != 'data':
                continue
            for r in rs:
                if r[0] in 'pt':
                    self.kept += 1
                    if not any(l2['n'] == 'deleter_context' and o2 == o and any(q[:2] == r[:2] for q in rs2) for l2, o2, rs2 in self.regions):
                        self.out.append(('shared', l, 'the region made around memory of an argument does not keep the argument'))
                        break

    kept = 0

    def declare(self, v):
        self.types[v['d']] = v.get('t', '')
        if self.scope:
            self.scope[-1].append(v['d'])
        FnAlias.declare(self, v)
        t = v.get('t', '')
        if t.endswith('&') and v.get('i') is not None and self.owns(t) and self.lvalue(v['i']):
            self.bound.add(v['d'])
        if v.get('i') is None and self.owns(t) and t.replace('const ', '').startswith('std::vector'):
            self.env[v['d']] = {'*': frozenset([('f', id(v), '')])}

    def s_range(self, n):
        x = strip(n['r'])
        if x is not None and x['k'] == 'call' and self.lvalue(x):
            for r in flat(self.ev(x)):
                if r[0] == 'f' and not self.held(r):
                    self.out.append(('outlives', n, 'the loop runs over a part of a temporary, `%s`' % text(x)[:60]))
                    break
        FnAlias.s_range(self, n)

    def s_blk(self, n):
        self.scope.append([])
        FnAlias.s_blk(self, n)
        for d in self.scope.pop():
            self.env.pop(d, None)

    def lam(self, e):
        if e['b'] is not None:
            for c in e['cap']:
                if not c.get('ref') and c.get('d') is not None and self.owns(c.get('t')):
                    for r in flat(self.env.get(c['d'], {})):
                        self.escaped.add(r[:2])
        s, self.scope = self.scope, []
        inner, self.inlam = self.inlam, True
        FnAlias.lam(self, e)
        self.inlam = inner
        self.scope = s

    inlam = False
    ret_t = ''

    def s_ret(self, n):
        if n.get('e') is None:
            return
        v = self.ev(n['e'])
        self.ret = merge(self.ret, v)
        if self.inlam:
            return
        t = (self.ret_t or '')
        ptr = is_ptr(t) or t.endswith('&')
        for r in flat(v):
            w = r[0].startswith('w:')
            a = r[0][2:] if w else r[0]
            if a == 'f' and (w or ptr) and (a, r[1]) not in self.escaped and not self.kept_by_member(r):
                self.out.append(('returned', n, 'what is returned points into storage of this function'))
            elif w and a in 'pt':
                self.out.append(('returned', n, 'the tensor that is returned shares memory with %s without keeping it' % ('an argument' if a == 'p' else 'the object')))

    def kept_by_member(self, r):
        for k, v in self.env.items():
            if isinstance(k, tuple) and any(x[:2] == ('f', r[1]) for x in flat(v)):
                return True
        return False


def block_locals(f):
    """(address taken, variable, holder, later use): the address of a variable of an
    inner block kept in a variable of an outer one that is used after the block."""
    order, decl, span = {}, {}, {}
    i = [0]

    def number(n, blocks):
        if isinstance(n, list):
            for x in n:
                number(x, blocks)
            return
        if not isinstance(n, dict):
            return
        if 'k' in n:
            i[0] += 1
            order[id(n)] = i[0]
        inner = n.get('k') in ('blk', 'for', 'range', 'while')
        if inner:
            blocks = blocks + [n]
            a = i[0]
        if n.get('k') == 'decl' and isinstance(n.get('b'), list):
            for v in n['b']:
                decl[v['d']] = (v, blocks[-1] if blocks else None, blocks)
        if n.get('k') == 'range' and isinstance(n.get('v'), dict):
            decl[n['v'].get('d')] = (n['v'], n, blocks)
        for x in n.values():
            if isinstance(x, (dict, list)):
                number(x, blocks)
        if inner:
            span[id(n)] = (a, i[0])

    number(f.body, [])

    def local(e):
        """The variable e is a part of, if the part lies in the variable itself."""
        e = strip(e)
        while e is not None:
            if e['k'] == 'ref':
                d = decl.get(e.get('d'))
                if d is None or d[0].get('static') or d[0]['t'].endswith('&') or is_ptr(d[0]['t']):
                    return None
                return e['d']
            if e['k'] == 'mem' and not e.get('arrow'):
                e = strip(e.get('o'))
            elif e['k'] == 'idx' and re.search(r'\[\d+\]$', str((strip(e['a']) or {}).get('t'))):
                e = strip(e['a'])
            else:
                return None
        return None

    def addr(e):
        e = strip(e)
        if e is not None and e['k'] == 'un' and e['op'] == '&':
            return local(e['e'])
        if e is not None and e['k'] == 'cond':
            return addr(e['t']) or addr(e['f'])
        return None

    def root(e):
        e = strip(e)
        while e is not None and e['k'] != 'ref':
            if e['k'] == 'mem':
                e = strip(e.get('o')) if e.get('o') is not None else None
            elif e['k'] == 'idx':
                e = strip(e['a'])
            elif e['k'] == 'opcall':
                e = strip(e['a'][0])
            elif e['k'] == 'call' and e.get('o') is not None:
                e = strip(e['o'])
            else:
                return None
        return e

    for n in walk(f.body):
        if n['k'] == 'bin' and n['op'] == '=':
            l, d = n['a'], addr(n['b'])
        elif n['k'] == 'opcall' and n['op'] == '=' and len(n['a']) == 2:
            l, d = n['a'][0], addr(n['a'][1])
        elif n['k'] == 'call' and n.get('o') is not None and shortname(n.get('f', '')) in ('push_back', 'emplace_back', 'insert', 'emplace'):
            l, d = n['o'], next((x for x in map(addr, n['a']) if x), None)
        else:
            continue
        if d is None:
            continue
        r = root(l)
        if r is None or r.get('d') not in decl or r['d'] == d:
            continue
        v, b, bs = decl[d]
        w, wb, wbs = decl[r['d']]
        if b is None or any(x is b for x in wbs):
            continue                # the holder goes with it, or before it
        lo, hi = span[id(b)]
        again = {id(strip(m['a'])) for m in walk(f.body) if m['k'] == 'bin' and m['op'] == '='}
        late = next((m for m in walk(f.body) if m['k'] == 'ref' and m.get('d') == r['d'] and order[id(m)] > hi), None)
        yield n, v, w, late if late is None or id(late) not in again else None
