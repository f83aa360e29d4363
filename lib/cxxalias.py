"""Whose storage is written: aliases of array storage through the native code.

The value of an expression maps a field ('values', 'shape', ... or '*' for the
whole object) to the set of roots its storage may belong to. A root is
('p', i, path) - parameter i - or ('t', member, path) - a member of this.
Objects that are made here (allocated, cloned, computed) have no root.
"""
import re

from cxx import walk, text, shortname
from cxxpath import strip, is_ptr, fatal

NONE = {}
FRESH = {'Clone', 'clone', 'NewStates', 'Cat', 'Append'}
# methods whose result shares storage with the object, for callees not known
ALIAS = {'Data', 'data', 'data_ptr', 'Arange', 'RowSplits', 'RowIds', 'begin', 'end', 'get', 'To', 'to', 'contiguous', 'Row', 'Accessor', 'accessor', 'view', 'view_as',
         'reshape', 'slice', 'select', 'index', 'value', 'at', 'back', 'front', 'detach', 'packed_accessor32', 'packed_accessor64', 'packed_accessor', 'unsqueeze', 'squeeze', 'Shape', 'shape', 'Col', 'narrow', 'transpose', 'flatten', 'Specialize', 'Generic',
         'const_data_ptr', 'mutable_data_ptr', 'data_ptr<float>', 'expand', 'permute', 'is_leaf', 'Index', 'Values', 'values', 'emplace_back', 'ToFloat', 'ToInt', 'ToLong'}
WRITERS0 = {'memset', 'memcpy', 'atomicAdd', 'AtomicAdd', 'AtomicDecAndCompareZero', 'atomicMin', 'atomicMax', 'atomicCAS', 'fill_', 'copy_', 'zero_', 'sort', 'stable_sort', 'reverse', 'unique', 'iota', 'fill', 'fill_n',
            'shuffle', 'nth_element', 'partial_sort', 'swap_ranges', 'AtomicCAS', 'mergesort', 'segmented_sort'}
SCALAR = ('int', 'unsigned int', 'long', 'unsigned long', 'float', 'double', 'bool', 'char', 'unsigned char', 'short', 'void', 'long long', 'unsigned long long', 'k2::Dtype', 'k2::DeviceType',
          'std::string', 'std::basic_string<char>', 'const int', 'const long', 'const float', 'const double', 'const bool', 'k2::Arc', 'const k2::Arc', 'signed char', 'const char')


PLAIN = set()


def own(v, k):
    """The roots of the part k of v."""
    while True:
        if k in v:
            return v[k]
        if k == '*':
            return frozenset()
        k = k.rsplit('.', 1)[0] if '.' in k else '*'


def merge(*vs):
    vs = [v for v in vs if v]
    if len(vs) < 2:
        return dict(vs[0]) if vs else {}
    out = {}
    for k in set(k for v in vs for k in v):
        r = frozenset()
        for v in vs:
            r |= own(v, k)
        out[k] = r
    return out


def flat(v):
    out = frozenset()
    for r in v.values():
        out |= r
    return out


def field(v, n):
    """The value of member n."""
    sub = {}
    for k, r in v.items():
        if k == n:
            sub['*'] = r
        elif k.startswith(n + '.'):
            sub[k[len(n) + 1:]] = r
    if sub:
        return sub
    # the first members name the place; deeper ones add nothing
    r = frozenset((a, n, '') if (a, b, c) == ('t', '', '') else (a, b, n if not c else c if c.count('.') else c + '.' + n) for a, b, c in v.get('*', ()))
    return {'*': r} if r else {}


def nest(n, v):
    """v as the member n of an object."""
    return {n if k == '*' else n + '.' + k: r for k, r in v.items()} or {n: frozenset()}


def with_member(v, n, x):
    out = {k: r for k, r in v.items() if k != n and not k.startswith(n + '.')}
    out.update(nest(n, x))
    return out


# change a tensor, but not its elements
KEEP = {'requires_grad_', 'retain_grad', 'detach_', 'set_', 'resize_', 'rename_'}
# fill in a part of the object that follows from the rest
MEMO = {'k2::RaggedShape::RowIds', 'k2::RaggedShape::Populate', 'k2::RaggedShape::TotSize', 'k2::RaggedShape::RowSplits'}


class Alias:
    def __init__(self, prog, max_depth=40):
        self.prog = prog
        # records of numbers only
        PLAIN.clear()
        for n, r in prog.records.items():
            if r['fields'] and all(FnAlias.number(x['t']) for x in r['fields']):
                PLAIN.add(n)
        self.memo = {}
        self.busy = set()
        self.depth = 0

    # ---- summaries
    def summary(self, g):
        """(value of the result, {root: (node, how)} storage written)"""
        k = id(g)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or g.body is None or self.depth > 60:
            return ({}, {}, {})
        if g.name in MEMO:
            return ({'*': frozenset([('t', '', 'shape')])}, {}, {})
        self.busy.add(k)
        self.depth += 1
        w = FnAlias(self, g)
        try:
            w.run()
        finally:
            self.depth -= 1
            self.busy.discard(k)
        self.memo[k] = (w.ret, w.writes, w.members())
        return self.memo[k]

    def callees(self, e, fn):
        f = e.get('f')
        if not f:
            return []
        c = self.prog.by_name.get(f, [])
        n = len(e['a'])
        c = [g for g in c if len(g.params) == n and g.body is not None]
        if len(c) > 1:
            ta = e.get('ta', '')
            d = [g for g in c if g.tu == fn.tu and g.d.get('fd') == e.get('fd') and (not ta or g.ta == ta)]
            d = d or [g for g in c if ta and g.ta == ta] or [g for g in c if g.tu == fn.tu and g.d.get('fd') == e.get('fd')]
            c = d or c
            if len(c) > 1:
                d = [g for g in c if all(self.suits(g.params[i]['t'], a) for i, a in enumerate(e['a']))]
                c = d or c
        return c[:4]

    @staticmethod
    def suits(t, a):
        a = strip(a)
        if a is None or not isinstance(a.get('t'), str):
            return True
        x, y = [re.sub(r' ?\[\d*\]$', ' *', s.replace('const ', '').replace('&', '').strip()).replace('* *', '**') for s in (t, a['t'])]
        if 'dependent' in y or y == 'auto':
            return True
        return x == y or is_ptr(x) and is_ptr(y) and (x == y or 'void' in x) or not (is_ptr(x) or is_ptr(y)) and ('::' not in x) == ('::' not in y) and x.split('<')[0] == y.split('<')[0]


class FnAlias:
    def __init__(self, A, fn):
        self.A, self.fn = A, fn
        self.env = {}
        self.ret = {}
        self.writes = {}
        self.lambdas = {}
        for i, p in enumerate(fn.params):
            if p.get('d') is not None:
                self.env[p['d']] = {'*': frozenset([('p', i, '')])} if self.carries(p['t']) else {}

    @staticmethod
    def carries(t):
        t0 = t.replace('const ', '').strip()
        if 'k2::Context>' in t0 or 'Context *' in t0 or t0 in ('k2::ContextPtr', 'k2::ContextPtr &'):
            return False
        if t0.endswith('&'):
            t0 = t0[:-1].strip()
            return t0 not in SCALAR and t0 not in PLAIN or not t.startswith('const ')
        return t0 not in SCALAR and t0 not in PLAIN and not t0.startswith('std::basic_string') and not t0.startswith('std::shared_ptr<k2::Context') and t0 != 'k2::ContextPtr'

    def run(self):
        for i in self.fn.d.get('inits') or []:
            e = i.get('e') or i.get('i')
            v = self.ev(e)
            if i.get('n'):
                self.env[('m', i['n'])] = v
        self.st(self.fn.body)

    def members(self):
        """What the members of this may hold at the end, those that are set."""
        return {k[1]: v for k, v in self.env.items() if isinstance(k, tuple) and k[0] == 'm'}

    # ---- writes
    def wrote(self, v, n, how):
        for r in flat(v):
            self.writes.setdefault(r, (n, how))

    @staticmethod
    def torch(t):
        return isinstance(t, str) and t.replace('const ', '').rstrip('& ') in ('at::Tensor', 'torch::Tensor')

    @staticmethod
    def hostvec(e):
        """A host container: setting its elements writes no array."""
        t = (strip(e) or {}).get('t')
        return isinstance(t, str) and t.replace('const ', '').startswith(('std::vector', 'std::map', 'std::unordered_map', 'std::pair', 'std::set', 'std::deque'))

    def store(self, lhs, n):
        """An assignment to the lvalue lhs (not a rebinding of a variable)."""
        l = strip(lhs)
        if l is None:
            return
        k = l['k']
        if k in ('idx', 'opcall') and isinstance(l.get('t'), str) and is_ptr(l['t'].rstrip('& ')):
            return          # an array of pointers, made for a kernel
        if k == 'ref':
            # a reference to an element
            if l['d'] in self.elemref:
                self.wrote(self.env.get(l['d'], {}), n, text(n))
            return
        if k == 'idx':
            self.wrote(self.ev(l['a']), n, text(l))
            self.ev(l['i'])
        elif k == 'un' and l['op'] == '*':
            x = strip(l['e'])
            if is_ptr(x.get('t', '')) if isinstance(x.get('t'), str) else False:
                t = x['t'].replace('const ', '')
                if self.array_type(t.rstrip('* ')):
                    return      # *out = array: rebinding
                self.wrote(self.ev(x), n, text(l))
        elif k == 'mem':
            o = strip(l.get('o'))
            if o is None:
                return
            if l.get('arrow'):
                t = o.get('t', '') if isinstance(o.get('t'), str) else ''
                if o['k'] != 'this' and t.replace('const ', '').rstrip('* &') in PLAIN:
                    self.wrote(self.ev(o), n, text(l))
                return
            if o['k'] in ('idx', 'un', 'opcall'):
                self.store(o, n)
            elif o['k'] == 'ref' and o['d'] in self.elemref:
                self.wrote(self.env.get(o['d'], {}), n, text(l))
        elif k in ('opcall', 'call') and self.torch(l.get('t')) and not self.hostvec(l['a'][0] if k == 'opcall' else l.get('o')):
            # into a part of a tensor: x.index({...}) = y, x[i] = y
            self.wrote(self.ev(l), n, text(n))
        elif k == 'opcall' and l['op'] in ('[]', '()', '*'):
            t = l.get('t', '')
            if self.hostvec(l['a'][0]):
                return
            if not self.array_type(t.replace('const ', '').rstrip('& ')):
                self.wrote(self.lv(l), n, text(l))
        elif k == 'call':
            t = l.get('t', '')
            if not self.array_type(t.replace('const ', '').rstrip('& ')):
                self.wrote(self.lv(l), n, text(l))
        elif k == 'cond':
            self.store(l['t'], n)
            self.store(l['f'], n)

    @staticmethod
    def array_type(t):
        return any(x in t for x in ('k2::Array1', 'k2::Array2', 'k2::Ragged', 'k2::Tensor', 'at::Tensor', 'k2::DenseFsaVec', 'std::vector', 'std::unique_ptr', 'std::shared_ptr', 'RaggedAny', 'optional<', 'RaggedShapeLayer', 'k2::Renumbering', 'k2::FsaClass')) and not t.rstrip().endswith('*')

    # ---- expressions
    def ev(self, e):
        if e is None:
            return {}
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            v = m(e)
            return {} if v and self.scalar(e.get('t')) else v
        for key in ('c', 'o', 'a', 'b', 'e', 'i', 'n', 't', 'f'):
            v = e.get(key)
            if isinstance(v, dict):
                self.ev(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        self.ev(x)
        return {}

    @staticmethod
    def number(t):
        return t.replace('const ', '').strip() in SCALAR or '(unnamed)' in t

    @staticmethod
    def scalar(t):
        """Whether a value of type t holds no storage of its own."""
        if not isinstance(t, str):
            return False
        t = t.replace('const ', '').rstrip('& ').strip()
        return t in SCALAR or t in PLAIN or t.startswith('std::basic_string') or 'k2::Context>' in t and 'vector' not in t

    def lv(self, e):
        """The storage the lvalue e lies in."""
        e = strip(e)
        if e is None:
            return {}
        k = e['k']
        if k == 'mem' and e.get('o') is not None and self.scalar(e.get('t')):
            o = strip(e['o'])
            if o['k'] == 'this' or o['k'] == 'ref' and not is_ptr(o.get('t') or '') and o.get('d') not in self.elemref:
                return {}       # a variable of an object, no array
            return self.lv(e['o']) if not e.get('arrow') else self.ev(e['o'])
        if k == 'idx':
            return self.ev(e['a'])
        if k == 'un' and e['op'] == '*':
            return self.ev(e['e'])
        if k == 'ref':
            return self.env.get(e.get('d'), {}) if e.get('d') not in self.lambdas else {}
        if k == 'opcall' and e['op'] in ('[]', '()', '*'):
            return merge(self.e_opcall(e), self.ev(e['a'][0])) if self.scalar(e.get('t')) else self.ev(e)
        if k == 'call':
            return self.e_call(e)
        if k == 'cond':
            return merge(self.lv(e['t']), self.lv(e['f']))
        return self.ev(e)

    def e_ref(self, e):
        if e.get('d') in self.lambdas:
            l = self.lambdas[e['d']]
            if id(l) not in self.running:
                self.running.add(id(l))
                self.lam(l)
                self.running.discard(id(l))
            return {}
        return self.env.get(e.get('d'), {})

    running = None

    def e_this(self, e):
        return {'*': frozenset([('t', '', '')])}

    def e_mem(self, e):
        o = e.get('o')
        if o is None:
            return {}
        x = strip(o)
        p = self.path(e)
        if p in self.env:
            return self.env[p]
        if re.search(r'\[\d*\]$', e.get('t') or '') and not self.array_type(e['t']):
            return {}           # a part of the object itself
        if x['k'] == 'this':
            k = ('m', e['n'])
            if k in self.env:
                return self.env[k]
            return {'*': frozenset([('t', e['n'], '')])} if self.carries(e['t']) else {}
        v = self.ev(x)
        return field(v, e['n'])

    def e_cast(self, e):
        return self.ev(e['e'])

    e_bool = e_dflt = e_cast

    def e_un(self, e):
        if e['op'] == '&':
            return self.lv(e['e'])
        v = self.ev(e['e'])
        if e['op'] in ('++', '--'):
            x = strip(e['e'])
            if x['k'] != 'ref' or x['d'] in self.elemref:
                self.store(x, e)
            return v
        return v

    def e_bin(self, e):
        op = e['op']
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.ev(e['b'])
            l = strip(e['a'])
            if l['k'] == 'ref' and l['d'] not in self.elemref:
                if op == '=':
                    self.env[l['d']] = v
                return v
            self.store(l, e)
            self.bind(l, v)
            return v
        a, b = self.ev(e['a']), self.ev(e['b'])
        if op in ('+', '-') and is_ptr(e.get('t', '')):
            return merge(a, b)
        return {}

    @staticmethod
    def path(l):
        """A key for the place l.f of an object that is not a variable."""
        return ('x', text(l)) if l['k'] == 'mem' and strip(l.get('o') or {'k': 'this'})['k'] in ('call', 'opcall', 'mem', 'idx') else None

    def bind(self, l, v):
        """Rebinding: x = v, x.f = v, *x = v for array-like objects."""
        p = self.path(l)
        if p is not None:
            self.env[p] = v
            return
        for k in [k for k in self.env if isinstance(k, tuple) and k[0] == 'x']:
            if k[1].split('.')[0].split('[')[0].split('-')[0].strip('(*') == text(l).split('[')[0].split('.')[0]:
                del self.env[k]
        if l['k'] == 'ref':
            if l['d'] not in self.elemref:
                self.env[l['d']] = v
            else:
                self.env[l['d']] = merge(self.env.get(l['d'], {}), v)
        elif l['k'] == 'mem' and l.get('o'):
            o = strip(l['o'])
            if o['k'] == 'this':
                self.env[('m', l['n'])] = v
            elif o['k'] == 'ref':
                self.env[o['d']] = with_member(self.env.get(o['d'], {}), l['n'], v)
        elif l['k'] in ('idx', 'opcall') :
            b = strip(l['a'] if l['k'] == 'idx' else l['a'][0])
            if b is not None and b['k'] == 'ref' and v:
                self.env[b['d']] = merge(self.env.get(b['d'], {}), v)
        elif l['k'] == 'un' and l['op'] == '*':
            b = strip(l['e'])
            if b['k'] == 'ref' and b['dk'] == 'local':
                pass

    def e_cond(self, e):
        self.ev(e['c'])
        if fatal(e['f']):
            return self.ev(e['t'])
        return merge(self.ev(e['t']), self.ev(e['f']))

    def e_idx(self, e):
        v = self.ev(e['a'])
        self.ev(e['i'])
        return v if self.carries(e.get('t') or 'x') else v

    def e_list(self, e):
        return merge(*[self.ev(a) for a in e['a'] if self.shares(a)]) if e['a'] else {}

    def e_list0(self, e):
        return merge(*[self.ev(a) for a in e['a']]) if e['a'] else {}

    def e_lambda(self, e):
        self.lam(e)
        return {}

    def lam(self, e):
        if e['b'] is None:
            return
        for c in e['cap']:
            if c.get('i') is not None and c.get('d') is not None:
                self.env[c['d']] = self.ev(c['i'])
        ret, self.ret = self.ret, {}
        self.st(e['b'])
        self.lamret = self.ret
        self.ret = ret

    def e_ctor(self, e):
        vs = [self.ev(a) for a in e['a']]
        t = e['t']
        if not self.carries(t):
            return {}
        if e.get('copy') or e.get('move'):
            return vs[0] if vs else {}
        cs = self.A.callees(e, self.fn)
        if t.startswith('k2::Ragged<') and len(e['a']) == 2 and (strip(e['a'][0]) or {}).get('t', '').replace('const ', '').rstrip(' &') in ('k2::RaggedShape',):
            return {**nest('shape', vs[0]), **nest('values', vs[1])}
        if cs and all(g.d.get('ctor') for g in cs):
            for g in cs:
                _, wr, mem = self.A.summary(g)
                self.apply_writes(g, wr, e, None, vs)
        t0 = t.replace('const ', '')
        if t0.startswith(('k2::Array1', 'k2::Array2', 'k2::Tensor', 'k2::Ragged')):
            # elements are copied from a vector, shared with an array or a region
            vs = [v for v, a in zip(vs, e['a']) if self.shares(a)]
        elif cs and t0.startswith('k2') and all(g.d.get('ctor') for g in cs):
            out = {}
            for g in cs:
                for m, v in self.A.summary(g)[2].items():
                    out = merge(out, nest(m, self.subst(v, None, vs)))
            return out
        return merge(*vs) if vs else {}

    def e_new(self, e):
        for k in ('e', 'i', 'a', 'c'):
            if isinstance(e.get(k), dict):
                return self.ev(e[k])
        return {}

    def e_opcall(self, e):
        op = e['op']
        a = e['a']
        if op in ('=',) and len(a) == 2:
            v = self.ev(a[1])
            l = strip(a[0])
            if 'k2::Array' in e.get('f', '') and not self.shares(a[1]):
                # x = 0: all elements
                self.wrote(self.ev(a[0]), e, text(e))
                return {}
            if l['k'] == 'ref' and l['d'] in self.elemref and not self.array_type(l.get('t', '').replace('const ', '')):
                self.store(l, e)
                return v
            self.store(l, e)
            self.bind(l, v)
            return v
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '++', '--'):
            for x in a[1:]:
                self.ev(x)
            l = strip(a[0])
            if self.torch(l.get('t')):
                self.wrote(self.ev(l), e, text(e))
            elif l['k'] != 'ref' or l['d'] in self.elemref:
                self.store(l, e)
            return {}
        vs = [self.ev(x) for x in a]
        if op == '()' and strip(a[0])['k'] == 'lambda':
            return self.lamret or {}
        cs = self.A.callees(dict(e, a=a[1:]), self.fn) if e.get('f', '').startswith('k2') else []
        if cs:
            return self.apply(cs, e, vs[0] if vs else {}, vs[1:])
        if op in ('[]', '()', '->', '*'):
            return vs[0] if vs else {}
        if op in ('+', '-') and '*' in e.get('t', ''):
            return merge(*vs)
        return {}

    def shares(self, a):
        t = (strip(a) or {}).get('t')
        if not isinstance(t, str):
            return True
        t = t.replace('const ', '')
        if t.startswith(('std::vector', 'std::initializer_list')):
            return any(x in t for x in ('Layer', 'Ragged', 'k2::Array'))
        return 'Region' in t or self.array_type(t) or 'dependent' in t or 'auto' in t

    lamret = None

    def apply_writes(self, g, wr, e, obj, vs):
        for (a, b, c), (n, how) in wr.items():
            if a == 'p' and b < len(vs):
                v = vs[b]
            elif a == 't' and obj is not None:
                v = field(obj, b) if b else obj
            else:
                continue
            for m in c.split('.') if c else ():
                v = field(v, m)
            self.wrote(v, e, 'through %s (%s:%d: %s)' % (shortname(g.name), g.file, n['l'], how[:80] if not how.startswith('through') else how[:140]))

    @staticmethod
    def subst(v, obj, vs):
        """The value v of a callee in terms of the caller's."""
        out = {}
        for k, rs in v.items():
            for a, b, c in rs:
                if a == 'p' and b < len(vs):
                    x = vs[b]
                elif a == 't' and obj is not None:
                    x = field(obj, b) if b else obj
                else:
                    continue
                for m in c.split('.') if c else ():
                    x = field(x, m)
                out = merge(out, x) if k == '*' else merge(out, nest(k, x))
        return out

    def apply(self, cs, e, obj, vs):
        out = {}
        for g in cs:
            ret, wr, mem = self.A.summary(g)
            self.apply_writes(g, wr, e, obj, vs)
            if mem and obj is not None:
                self.set_members(e, {m: self.subst(v, obj, vs) for m, v in mem.items()})
            if self.carries(e.get('t') or 'x'):
                out = merge(out, self.subst(ret, obj, vs))
        return out

    def set_members(self, e, mem):
        o = strip(e['o'] if e['k'] == 'call' else e['a'][0]) if e.get('o') is not None or e['k'] == 'opcall' else None
        if o is None:
            return
        for m, v in mem.items():
            if o['k'] == 'this':
                k = ('m', m)
                old = self.env[k] if k in self.env else {'*': frozenset([('t', m, '')])}
                self.env[k] = merge(old, v)
            elif o['k'] == 'ref' and v and flat(v) - flat(field(self.env.get(o['d'], {}), m)):
                old = self.env.get(o['d'], {})
                self.env[o['d']] = with_member(old, m, merge(field(old, m), v))

    def e_call(self, e):
        name = shortname(e.get('f', ''))
        obj = None
        if e.get('o') is not None:
            x = strip(e['o'])
            obj = self.ev(x)
        elif e.get('c') is not None:
            self.ev(e['c'])
        vs = [self.ev(a) for a in e['a']]
        f = e.get('f', '')
        if name in ('GetContext', 'Context', 'GetCpuContext', 'GetDevice', 'Dim', 'NumElements', 'NumAxes', 'TotSize', 'Dim0', 'Dim1', 'ElemStride0', 'size'):
            return {}
        if name in ('move', 'forward', 'ref', 'cref', 'get', 'make_pair', 'make_tuple', 'tie', 'value') and f.startswith('std::'):
            return merge(obj or {}, *vs)
        if name in ('FromTorch', 'ToTorch') and vs and not self.scalar(e.get('t')):
            return {'*': flat(vs[0])} if flat(vs[0]) else {}
        cs = self.A.callees(e, self.fn)
        if name == 'Data' and obj is not None:
            return obj
        if cs and not (name in ('To', 'to')):
            r = self.apply(cs, e, obj, vs)
            return r
        if name in ('copy', 'copy_n', 'transform', 'move_backward', 'partial_sum', 'copy_if') and (f.startswith('std::') or e.get('dep')) and len(vs) >= 3:
            self.wrote(vs[2], e, text(e)[:80])
            return {}
        if name == 'CopyDataTo' and len(vs) == 4:
            self.wrote(vs[3], e, text(e)[:80])
            return {}
        if obj is not None and name.endswith('_') and not name.endswith('__') and name not in KEEP and self.torch((strip(e['o']) or {}).get('t')):
            self.wrote(obj, e, text(e)[:80])
            return obj
        if name in ('make_shared', 'make_unique', 'shared_ptr', 'unique_ptr') or name.startswith('make_'):
            m = re.match(r'std::(?:shared|unique)_ptr<(.*)>$', (e.get('t') or '').replace('const ', '').replace(', std::default_delete', '>'))
            if m:
                t = m.group(1).split('>')[0] if '<' not in m.group(1) else m.group(1)
                return self.e_ctor({'k': 'ctor', 't': t, 'f': '%s::%s' % (t, shortname(t)), 'a': e['a'], 'l': e['l']})
            return merge(*vs) if vs else {}
        if name in WRITERS0 and (vs or obj):
            v = obj if name.endswith('_') and obj is not None else vs[0] if vs else {}
            self.wrote(v, e, text(e)[:80])
            return {}
        if name in ('push_back', 'emplace_back', 'insert', 'assign') and obj is not None:
            o = strip(e['o'])
            if o['k'] == 'ref':
                self.env[o['d']] = merge(self.env.get(o['d'], {}), *vs)
            elif o['k'] == 'mem' and strip(o.get('o') or {'k': 'x'})['k'] == 'this':
                self.env[('m', o['n'])] = merge(self.env.get(('m', o['n']), {}), *vs)
            return {}
        if name in FRESH or name.startswith('Create'):
            return {}
        if obj is not None and (name in ALIAS):
            return obj if self.carries(e.get('t') or 'x') else {}
        if name in ('FromTorch', 'ToTorch', 'FromTensor', 'from_blob') and vs:
            return vs[0]
        return {}

    # ---- statements, environments joined
    def st(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + n['k'], None)
        if m:
            m(n)
        else:
            self.ev(n)

    def s_blk(self, n):
        for x in n['b']:
            self.st(x)

    def s_nop(self, n):
        pass

    def s_decl(self, n):
        for v in n['b']:
            self.declare(v)

    def declare(self, v):
        i = v.get('i')
        if i is None:
            return
        x = strip(i)
        if x is not None and x['k'] == 'lambda':
            self.lambdas[v['d']] = x
            return
        t = v.get('t', '')
        val = self.lv(i) if t.endswith('&') else self.ev(i)
        if t.endswith('&') and not self.array_type(t.rstrip('& ')):
            if self.carries(t):
                self.elemref.add(v['d'])
                self.env[v['d']] = val
            return
        self.env[v['d']] = val if self.carries(t) else {}

    def s_if(self, n):
        if n.get('init'):
            self.st(n['init'])
        if n.get('cv'):
            self.declare(n['cv'])
        self.ev(n['c'])
        e0 = dict(self.env)
        self.st(n['t'])
        e1 = self.env
        t1 = self.stops(n['t'])
        self.env = dict(e0)
        self.st(n.get('f'))
        if t1:
            return
        if n.get('f') is not None and self.stops(n['f']):
            self.env = e1
            return
        self.join(e1)

    def stops(self, n):
        if n is None:
            return False
        if n['k'] in ('ret', 'throw', 'break', 'continue'):
            return True
        if n['k'] == 'blk':
            return any(self.stops(x) for x in n['b'])
        if n['k'] == 'if':
            return n.get('f') is not None and self.stops(n['t']) and self.stops(n['f'])
        return n['k'] == 'opcall' and fatal(n)

    def join(self, other):
        for k, v in other.items():
            if k not in self.env:
                self.env[k] = v
            elif self.env[k] is not v and self.env[k] != v:
                self.env[k] = merge(self.env[k], v)

    def loop(self, n, parts):
        for _ in range(2):
            e0 = dict(self.env)
            for p in parts:
                if p is not None:
                    self.st(p)
            self.join(e0)

    def s_for(self, n):
        self.st(n.get('i'))
        self.loop(n, [n.get('c'), n['b'], n.get('s')])

    def s_while(self, n):
        self.loop(n, [n['c'], n['b']])

    def s_do(self, n):
        c = strip(n['c'])
        if c['k'] in ('int', 'boolean') and not c.get('v'):
            self.st(n['b'])
            return
        self.loop(n, [n['b'], n['c']])

    def s_range(self, n):
        v = self.ev(n['r'])
        self.env[n['v']['d']] = v
        if n['v'].get('t', '').endswith('&') and not self.array_type(n['v']['t'].rstrip('& ')):
            self.elemref.add(n['v']['d'])
        self.loop(n, [n['b']])

    def s_switch(self, n):
        self.ev(n['c'])
        e0 = dict(self.env)
        self.st(n['b'])
        self.join(e0)

    def s_case(self, n):
        self.st(n.get('b'))

    s_default = s_case

    def s_break(self, n):
        pass

    s_continue = s_throw = s_break

    def s_ret(self, n):
        if n.get('e') is not None:
            self.ret = merge(self.ret, self.ev(n['e']))

    def s_try(self, n):
        self.st(n['b'])
        for h in n.get('h', []):
            self.st(h)


_init = FnAlias.__init__


def _new(self, A, fn):
    self.elemref = set()
    self.running = set()
    _init(self, A, fn)
    for p in fn.params:
        t = p['t']
        if t.endswith('&') and not t.startswith('const ') and not self.array_type(t.rstrip('& ')):
            self.elemref.add(p.get('d'))


FnAlias.__init__ = _new
