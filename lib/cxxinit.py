"""Local variables that may be read before they are given a value.

Definite assignment over the statements of one function: a scalar local, or
one scalar field of a local plain struct, that on some path is read (or
copied whole) without having been assigned.
"""
from cxx import walk, text, shortname
from cxxpath import strip, fatal, is_ptr
from cxxfill import cond_key

SCALARS = {'int', 'unsigned int', 'long', 'unsigned long', 'float', 'double', 'bool', 'char', 'unsigned char', 'signed char', 'short', 'unsigned short', 'long long', 'unsigned long long'}
LEAVE = None


def scalar(t):
    t = t.replace('const ', '').strip()
    return t in SCALARS or is_ptr(t)


class Init:
    def __init__(self, prog, fn, pods=None):
        self.prog, self.fn = prog, fn
        self.pods = pods if pods is not None else plain_structs(prog)
        self.bad = {}
        self.vars = {}
        self.breaks = []
        self.lambdas = {}
        self.types = {}
        self.count = 0
        self.depth = 0

    def run(self):
        self.st(self.fn.body, frozenset())
        return self.bad

    # ---- statements; a state is the set of (variable, field) not assigned
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def st(self, n, U):
        if n is None or U is None:
            return U
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, U)
        U = self.ex(n, U)
        if k in ('opcall', 'call', 'bin', 'cond', 'cast') and self.never_returns(n):
            return None
        return U

    def never_returns(self, n):
        x = strip(n)
        return x['k'] == 'opcall' and fatal(x) or x['k'] == 'call' and shortname(x.get('f', '')) in ('abort', 'exit', 'throw_exception')

    def s_blk(self, n, U):
        for x in n['b']:
            U = self.st(x, U)
            if U is None:
                return None
        return U

    s_stmt = s_blk

    def s_nop(self, n, U):
        return U

    def s_decl(self, n, U):
        for v in n['b']:
            U = self.declare(v, U)
        return U

    def declare(self, v, U):
        i, t, d = v.get('i'), v.get('t') or '', v['d']
        if v.get('static'):
            return U
        x = strip(i)
        if x is not None and x['k'] == 'lambda':
            self.lambdas[d] = x
            return self.lam(x, U, False)
        if i is None:
            if scalar(t):
                self.vars[d] = v
                self.count += 1
                return U | {(d, None, frozenset())}
            return U
        t0 = t.replace('const ', '').strip()
        if x['k'] == 'ctor' and not x['a'] and t0 in self.pods and not x.get('zero'):
            self.vars[d] = v
            self.count += 1
            self.types[d] = t0
            return U | {(d, f, frozenset()) for f in self.pods[t0]}
        return self.ex(i, U)

    def s_if(self, n, U):
        if n.get('init'):
            U = self.st(n['init'], U)
        if n.get('cv'):
            U = self.declare(n['cv'], U)
        U = self.ex(n['c'], U)
        c = strip(n['c'])
        if c['k'] in ('boolean', 'int'):
            return self.st(n['t'] if c['v'] else n.get('f'), U)
        key, side = cond_key(c)
        if any(m['k'] in ('opcall', 'lambda') for m in walk(c)):
            key = None
        a = self.st(n['t'], self.assume(U, key, side))
        b = self.st(n.get('f'), self.assume(U, key, not side))
        if a is None or b is None:
            return a if b is None else b
        if key is None:
            return a | b
        return (a & b) | {(d, f, t | {(key, side)}) for d, f, t in a - b} | {(d, f, t | {(key, not side)}) for d, f, t in b - a}

    def assume(self, U, key, side):
        """What is left unassigned where the condition is known."""
        if key is None:
            return U
        return frozenset((d, f, t - {(key, side)}) for d, f, t in U if (key, not side) not in t)

    def loop(self, n, U, once=False, forever=False):
        self.breaks.append([])
        a = self.st(n['b'], U)
        brk = self.breaks.pop()
        if n.get('s') is not None and a is not None:
            a = self.ex(n['s'], a)
        out = None if forever else (a if once else U)
        for b in brk:
            out = self.join(out, b)
        return out

    def s_for(self, n, U):
        U = self.st(n.get('i'), U)
        if n.get('c') is not None:
            U = self.ex(n['c'], U)
        c = strip(n.get('c')) if n.get('c') is not None else None
        return self.loop(n, U, forever=c is None or c['k'] in ('boolean', 'int') and bool(c['v']))

    def s_while(self, n, U):
        U = self.ex(n['c'], U)
        c = strip(n['c'])
        return self.loop(n, U, forever=c['k'] in ('boolean', 'int') and bool(c['v']))

    def s_do(self, n, U):
        U = self.loop(n, U, once=True)
        return self.ex(n['c'], U) if U is not None else None

    def s_range(self, n, U):
        U = self.ex(n['r'], U)
        return self.loop(n, U)

    def s_switch(self, n, U):
        U = self.ex(n['c'], U)
        self.breaks.append([])
        body = n['b']['b'] if n['b'] is not None and n['b']['k'] == 'blk' else [n['b']]
        cur = None
        default = False
        for x in body:
            while x is not None and x['k'] in ('case', 'default'):
                default = default or x['k'] == 'default'
                cur = self.join(cur, U)
                x = x.get('b')
            if cur is not None and x is not None:
                cur = self.st(x, cur)
        brk = self.breaks.pop()
        out = cur       # one of the cases is taken
        for b in brk:
            out = self.join(out, b)
        return out

    def s_case(self, n, U):
        return self.st(n.get('b'), U)

    s_default = s_case

    def s_break(self, n, U):
        if self.breaks:
            self.breaks[-1].append(U)
        return None

    def s_continue(self, n, U):
        return None

    def s_throw(self, n, U):
        self.ex(n, U)
        return None

    def s_ret(self, n, U):
        if n.get('e') is not None:
            self.ex(n['e'], U)
        return None

    def s_try(self, n, U):
        a = self.st(n['b'], U)
        for h in n.get('h', []):
            a = self.join(a, self.st(h, U))
        return a

    # ---- expressions
    def read(self, d, f, e, U, whole=False):
        for v, g, tags in U:
            if g is not None and f is None and not self.wanted(d, g):
                continue
            if v == d and (f is None or g is None or g == f):
                name = self.vars[d].get('n') or '?'
                self.bad.setdefault((d, g), (e, '`%s%s` may be read here without having been given a value' % (name, '.' + g if g else '')))

    def wanted(self, d, g):
        """A field must be there when the whole is copied: for arcs, and where
        the function gives it a value on some path."""
        if self.types.get(d) == 'k2::Arc':
            return True
        if self.fields is None:
            self.fields = set()
            for n in walk(self.fn.body):
                if n['k'] == 'bin' and n['op'] == '=':
                    l = strip(n['a'])
                    if l['k'] == 'mem' and l.get('o') is not None and strip(l['o'])['k'] == 'ref':
                        self.fields.add((strip(l['o'])['d'], l['n']))
        return (d, g) in self.fields

    fields = None

    def set(self, d, f, U):
        if f is None:
            return frozenset(x for x in U if x[0] != d)
        return frozenset(x for x in U if x[:2] != (d, f))

    def lhs(self, l, U):
        """Assignment to l."""
        l = strip(l)
        if l is None:
            return U
        if l['k'] == 'ref':
            return self.set(l.get('d'), None, U)
        if l['k'] == 'mem' and l.get('o') is not None and not l.get('arrow'):
            o = strip(l['o'])
            if o['k'] == 'ref':
                return self.set(o.get('d'), l['n'], U)
        return self.ex(l, U)

    def ex(self, e, U):
        if e is None or U is None:
            return U
        if isinstance(e, list):
            for x in e:
                U = self.ex(x, U)
            return U
        k = e.get('k')
        if k == 'ref':
            d = e.get('d')
            if d in self.lambdas:
                return self.lam(self.lambdas[d], U, True)
            if any(v == d for v, f, t in U):
                self.read(d, None, e, U)
                U = self.set(d, None, U)
            return U
        if k == 'mem' and e.get('o') is not None and not e.get('arrow'):
            o = strip(e['o'])
            if o['k'] == 'ref' and any(v == o.get('d') for v, f, t in U):
                if any(x[:2] == (o['d'], e['n']) for x in U):
                    self.read(o['d'], e['n'], e, U)
                return self.set(o['d'], e['n'], U)
            return self.ex(e['o'], U)
        if k == 'lambda':
            return self.lam(e, U, True)
        if k == 'bin' and e['op'] == '=':
            U = self.ex(e['b'], U)
            return self.lhs(e['a'], U)
        if k == 'bin' and e['op'] in ('&&', '||'):
            U = self.ex(e['a'], U)
            V = self.ex(e['b'], U)
            return V
        if k == 'opcall' and e['op'] == '=' and len(e['a']) == 2:
            U = self.ex(e['a'][1], U)
            return self.lhs(e['a'][0], U)
        if k == 'un' and e['op'] == '&':
            x = strip(e['e'])
            while x['k'] == 'mem' and not x.get('arrow') and x.get('o') is not None:
                x = strip(x['o'])
            if x['k'] == 'ref':
                return self.set(x.get('d'), None, U)
            return self.ex(e['e'], U)
        if k == 'cond':
            U = self.ex(e['c'], U)
            a, b = self.ex(e['t'], U), self.ex(e['f'], U)
            return self.join(a, b)
        if k in ('call', 'ctor', 'opcall'):
            if e.get('o') is not None:
                o = strip(e['o'])
                if o['k'] == 'ref' and any(v == o.get('d') for v, f, t in U):
                    U = self.set(o['d'], None, U)     # a method may set it up
                else:
                    U = self.ex(e['o'], U)
            if e.get('c') is not None and isinstance(e['c'], dict):
                U = self.ex(e['c'], U)
            for i, a in enumerate(e['a']):
                x = strip(a)
                y = x
                while y is not None and y['k'] == 'mem' and not y.get('arrow') and y.get('o') is not None:
                    y = strip(y['o'])
                if y is not None and y['k'] == 'ref' and any(v == y.get('d') for v, f, t in U) and a['k'] not in ('bool',) and not e.get('copy') and self.may_set(e, i, x):
                    U = self.set(y['d'], x['n'] if x is not y else None, U)
                else:
                    U = self.ex(a, U)
            return U
        if k == 'sizeof':
            return U
        for q, v in e.items():
            if q in ('t',) and not isinstance(v, dict):
                continue
            if isinstance(v, dict) and 'k' in v:
                U = self.ex(v, U)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        U = self.ex(x, U)
        return U

    def may_set(self, e, i, x):
        """Whether the callee may take the argument by reference and set it."""
        f = e.get('f', '')
        if e['k'] == 'opcall':
            return e['op'] in ('>>', '()')
        if e['k'] == 'ctor':
            return False if scalar(x.get('t') if isinstance(x.get('t'), str) else '') and 0 else True
        cs = [g for g in self.prog.by_name.get(f, ()) if len(g.params) > i] if f else []
        if cs:
            return any(g.params[i]['t'].endswith('&') and not g.params[i]['t'].startswith('const ') for g in cs)
        return True

    def lam(self, l, U, run):
        if l.get('b') is None or self.depth > 8:
            return U
        by_ref = set(c.get('d') for c in l['cap'] if c.get('ref'))
        for c in l['cap']:
            if not c.get('ref') and c.get('d') is not None and c.get('i') is None and any(v == c['d'] for v, f, t in U) and run is False:
                # copied when the lambda is made
                used = [m for m in walk(l['b']) if m['k'] == 'ref' and m.get('d') == c['d']]
                if used:
                    V = frozenset(x for x in U if x[0] == c['d'])
                    if any(f is None for v, f, t in V):
                        self.read(c['d'], None, used[0], V)
                    U = self.set(c['d'], None, U)
        if not run:
            return U
        self.depth += 1
        br, self.breaks = self.breaks, []
        V = frozenset(x for x in U if x[0] not in by_ref)
        self.st(l['b'], V)
        self.breaks = br
        self.depth -= 1
        return frozenset(x for x in U if x[0] not in by_ref)


def plain_structs(prog):
    """Structs whose scalar fields nothing sets: {type: fields}."""
    ctors = set()
    for f in prog.funcs:
        if f.d.get('ctor'):
            ctors.add(f.cls)
    out = {}
    for name, r in prog.records.items():
        if name in ctors and not any(f.cls == name and f.d.get('ctor') and f.params == [] for f in prog.funcs):
            pass
        elif name in ctors:
            continue
        fs = [f['n'] for f in r['fields'] if f.get('i') is None and scalar(f['t'])]
        if fs and not any(f.get('i') is not None for f in r['fields'] if scalar(f['t'])):
            out[name] = fs
    return out
