"""Symbolic sizes of arrays and ranges of indexes in the native code.

Integers are polynomials over the sizes of what the function is given; a loop
or kernel index is an atom with a range. An access p[i] is compared with the
number of elements of the array p points into; it is reported only where the
index, at the end of its range, is beyond the array for every input.
"""
import re
from fractions import Fraction

from cxx import walk, text, shortname
from cxxpath import strip, is_ptr, fatal
from poly import add, mul, atom, num, show_poly

REL = {'<': ('<', 0), '<=': ('<', 1), '>': ('>', 0), '>=': ('>', 1)}
ONE = num(1)
LAST = 999


class Size:
    def __init__(self, prog, fn, A=None):
        self.prog, self.fn, self.A = prog, fn, A
        self.env = {}
        self.n = 0
        self.range = {}         # index atom -> (lo, hi)
        self.sub = {}           # atom -> polynomial it equals
        self.totv = {}          # (shape, axis) -> polynomial
        self.naxes = {}
        self.over = {}          # array -> what it is indexed by
        self.minax = {}         # shape -> the largest axis it is asked about
        self.spaces = {}        # atom of a value loaded from row-ids
        self.guards = []
        self.lambdas = {}
        self.depth = 0
        self.checked = 0
        self.unknown = 0
        self.out = {}
        self.seen = set()
        self.types = {}
        self.loaded = set()
        self.typed = {}
        self.loads = {}
        self.vals = {}
        self.mem = {}
        self.quiet = 0
        self.accesses = {}

    # ---- atoms
    def fresh(self, p='u'):
        self.n += 1
        return atom('%s%d' % (p, self.n))

    def norm(self, p, depth=0):
        if p is None or depth > 20:
            return p
        for m in p:
            for a in m:
                if a in self.sub:
                    out = {}
                    for mm, c in p.items():
                        t = num(c)
                        for x in mm:
                            t = mul(t, self.sub[x] if x in self.sub else atom(x))
                        out = add(out, t)
                    return self.norm(out, depth + 1)
        return p

    def unify(self, a, b):
        a, b = self.norm(a), self.norm(b)
        d = add(a, b, -1)
        if not d or () in d and len(d) == 1:
            return
        # solve for an atom of coefficient one, sizes that are not totals first
        for want in ('d:', 'u', 'm:', 'i:', 'T:'):
            for m, c in d.items():
                if len(m) == 1 and abs(c) == 1 and m[0].startswith(want) and m[0] not in self.range and not any(m[0] in k for k in d if k != m):
                    rest = {k: v for k, v in d.items() if k != m}
                    self.sub[m[0]] = mul(num(-1 / Fraction(c)), rest)
                    return

    # ---- shapes
    def ax(self, R, k):
        """Axes counted from the end are numbers near LAST, until the number of axes is known."""
        return k - LAST + self.naxes[R] - 1 if k > 500 and R in self.naxes else k

    def tot(self, R, k):
        k = self.ax(R, k)
        if (R, k) in self.totv:
            return self.totv[(R, k)]
        return atom('T:%s:%d' % (R, k))

    def numel(self, R):
        return self.tot(R, LAST)

    def newshape(self):
        self.n += 1
        return 'r%d' % self.n

    def know_axes(self, R, n):
        if R not in self.naxes:
            self.naxes[R] = n
            for k in range(min(n, 4)):
                self.sub.setdefault('T:%s:%d' % (R, LAST - k), self.tot(R, n - 1 - k))

    # ---- values of variables
    def initial(self, d, name, t):
        t0 = t.replace('const ', '').rstrip('& ').strip()
        if t0.endswith('*') and not t0.endswith('**'):
            t1 = t0[:-1].strip()
            v = self.initial(d, name, t1)
            if v is not None and v[0] in ('arr', 'rag'):
                return v if v[0] == 'rag' else ('arr', v[1], v[2], None)
            return ('ptr', None, {}, None, name)
        key = '%s#%s' % (name, d)
        if t0.startswith('k2::Array1<') or t0.startswith('std::vector<') or t0.startswith('k2host::Array1'):
            return ('arr', atom('d:' + key), atom('d:' + key), None)
        if t0.startswith(('k2::Ragged<', 'k2::RaggedShape')) and 'Layer' not in t0 and 'Index' not in t0:
            return ('rag', key, None)
        if t0 in ('int', 'long', 'unsigned int', 'unsigned long', 'bool', 'short', 'unsigned char', 'char'):
            return ('int', atom('i:' + key))
        return None

    def var(self, d, name, t):
        if d not in self.env:
            self.env[d] = self.initial(d, name or '?', t or '')
        return self.env[d]

    # ---- expressions
    def ev(self, e):
        if e is None:
            return None
        m = getattr(self, 'e_' + e['k'], None)
        if m:
            return m(e)
        for key in ('c', 'o', 'a', 'b', 'e', 'i', 'n', 't', 'f'):
            v = e.get(key)
            if isinstance(v, dict):
                self.ev(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        self.ev(x)
        return None

    def int(self, e):
        v = self.ev(e)
        return v[1] if v is not None and v[0] == 'int' else self.fresh()

    def e_int(self, e):
        return ('int', num(e['v']))

    def e_boolean(self, e):
        return ('int', num(1 if e.get('v') else 0))

    def e_cast(self, e):
        return self.ev(e['e'])

    e_bool = e_dflt = e_cast

    def e_ref(self, e):
        if e.get('d') in self.lambdas:
            self.run_lambda(self.lambdas[e['d']], [])
            return None
        if e.get('dk') == 'enum' and isinstance(e.get('v'), int):
            return ('int', num(e['v']))
        t = e.get('t')
        return self.var(e.get('d'), e.get('n'), t if isinstance(t, str) else '')

    def e_this(self, e):
        return ('this',)

    def e_mem(self, e):
        o = strip(e.get('o')) if e.get('o') is not None else None
        if o is None:
            return None
        t = e.get('t') if isinstance(e.get('t'), str) else ''
        if o['k'] == 'this':
            k = e['n']
            if k not in self.mem:
                self.mem[k] = self.initial('m', 'm.' + k, t)
            return self.mem[k]
        v = self.ev(o)
        if v is not None and v[0] == 'rag':
            if e['n'] == 'shape':
                return ('rag', v[1], None)
            if e['n'] == 'values':
                s = v[2] or self.numel(v[1])
                return ('arr', s, s, ('arcs', v[1]) if 'k2::Arc' in t else None)
        if v is not None and v[0] == 'arc':
            if e['n'] in ('src_state', 'dest_state'):
                a = self.fresh('l')
                self.typed[list(a)[0][0]] = ('loc', v[1], self.naxes.get(v[1], 3) - 2)
                return ('int', a)
            return ('int', self.fresh())
        if v is not None and v[0] == 'obj':
            if e['n'] in v[1]:
                return v[1][e['n']]
            v[1][e['n']] = self.initial(v[2], 'o.' + e['n'], t)
            return v[1][e['n']]
        # a member of another object, as long as it is the same text
        k = ('x', text(e))
        if 'k2::' in t or 'std::vector' in t or t.replace('const ', '') in ('int',):
            if not any(n['k'] in ('call', 'idx') for n in walk(o)):
                if k not in self.mem:
                    self.mem[k] = self.initial('x', text(e), t)
                return self.mem[k]
            return self.initial(self.n, text(e) + str(self.tick()), t)
        return None

    def tick(self):
        self.n += 1
        return self.n

    def e_un(self, e):
        op = e['op']
        x = strip(e['e'])
        if op == '&':
            if x['k'] == 'idx':
                p, i = self.ev(x['a']), self.int(x['i'])
                self.shared(p)
                if p is not None and p[0] == 'ptr':
                    return ('ptr', p[1], add(p[2], i), p[3], p[4])
                return None
            if x['k'] == 'opcall' and x['op'] == '[]':
                v = self.ev(x['a'][0])
                i = self.int(x['a'][1])
                if v is not None and v[0] == 'arr':
                    return ('ptr', v[2], i, v[3], text(x['a'][0]))
                return None
            return self.ev(x)
        v = self.ev(x)
        if op == '*':
            if v is not None and v[0] == 'ptr':
                return self.access(v, {}, e)
            return v
        if op == '-' and v is not None and v[0] == 'int':
            return ('int', mul(num(-1), v[1]))
        if op in ('++', '--'):
            self.store(x, None)
            if x['k'] == 'ref':
                d = x['d']
                if v is not None and v[0] == 'int':
                    new = ('int', add(v[1], num(1 if op == '++' else -1)))
                    self.env[d] = new
                    return v
                if v is not None and v[0] == 'ptr':
                    self.env[d] = ('ptr', v[1], add(v[2], num(1 if op == '++' else -1)), v[3], v[4])
                    return v
            self.forget(x)
            return v
        return None

    def e_bin(self, e):
        op = e['op']
        if op == '=':
            v = self.ev(e['b'])
            l = strip(e['a'])
            if l['k'] == 'ref':
                self.env[l['d']] = self.keep(v, l.get('t'), l)
            elif l['k'] == 'mem' and strip(l.get('o') or {'k': '?'})['k'] == 'this':
                self.mem[l['n']] = self.keep(v, l.get('t'), l)
            else:
                self.ev(l)
                self.store(l, v)
                self.forget(l)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            b = self.ev(e['b'])
            l = strip(e['a'])
            a = self.ev(l)
            self.store(l, None)
            if l['k'] == 'ref':
                if a is not None and b is not None and a[0] == b[0] == 'int' and op in ('+=', '-='):
                    self.env[l['d']] = ('int', add(a[1], b[1], 1 if op == '+=' else -1))
                elif a is not None and b is not None and a[0] == 'ptr' and b[0] == 'int' and op in ('+=', '-='):
                    self.env[l['d']] = ('ptr', a[1], add(a[2], b[1], 1 if op == '+=' else -1), a[3], a[4])
                else:
                    self.forget(l)
            return None
        if op == '&&' or op == '||':
            self.ev(e['a'])
            g = len(self.guards)
            self.guard(e['a'], op == '&&')
            self.ev(e['b'])
            del self.guards[g:]
            return ('int', self.fresh('b'))
        a, b = self.ev(e['a']), self.ev(e['b'])
        if a is not None and b is not None:
            if a[0] == b[0] == 'int':
                if op == '+':
                    return ('int', add(a[1], b[1]))
                if op == '-':
                    return ('int', add(a[1], b[1], -1))
                if op == '*':
                    return ('int', mul(a[1], b[1]))
            if a[0] == 'ptr' and b[0] == 'int' and op in ('+', '-'):
                return ('ptr', a[1], add(a[2], b[1], 1 if op == '+' else -1), a[3], a[4])
        if op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^') or op in ('==', '!=', '<', '<=', '>', '>='):
            return ('int', self.fresh())
        return None

    def keep(self, v, t, l):
        """The value a variable of type t has after it is given v."""
        if v is not None:
            return v
        return self.initial(self.tick(), text(l), t if isinstance(t, str) else '')

    def forget(self, l):
        l = strip(l)
        if l is None:
            return
        if l['k'] == 'ref':
            self.env[l['d']] = self.initial(self.tick(), l.get('n') or '?', l.get('t') if isinstance(l.get('t'), str) else '')
        elif l['k'] == 'mem':
            o = strip(l.get('o')) if l.get('o') is not None else None
            if o is not None and o['k'] == 'this':
                self.mem[l['n']] = self.initial(self.tick(), l['n'], l.get('t') if isinstance(l.get('t'), str) else '')
            elif o is not None and o['k'] == 'ref':
                v = self.env.get(o['d'])
                if v is not None and v[0] == 'rag':
                    self.env[o['d']] = ('rag', self.newshape() if l['n'] == 'shape' else v[1], self.fresh('d:') if l['n'] == 'values' else v[2])
            self.mem = {k: v for k, v in self.mem.items() if not (isinstance(k, tuple) and k[1].startswith(text(l).split('.')[0].split('->')[0].strip('(*&')))}

    def e_idx(self, e):
        p = self.ev(e['a'])
        i = self.int(e['i'])
        if p is not None and p[0] == 'ptr':
            return self.access(p, i, e)
        return None

    def access(self, p, i, e):
        _, S, off, sp, name = p
        I = add(off, i)
        if S is not None and not self.quiet:
            self.check(S, I, e, name)
        v = self.load(sp, I)
        if v is not None:
            return v
        if sp is not None and sp[0] == 'arcs':
            return ('arc', sp[1])
        t = e.get('t')
        if isinstance(t, str) and t.replace('const ', '').rstrip('& ') in ('int', 'unsigned int', 'long', 'char', 'bool'):
            return ('int', self.fresh())
        return None

    def store(self, l, v):
        """What positions the elements of an array made here are given."""
        l = strip(l)
        if l is None or l['k'] not in ('idx', 'opcall', 'un'):
            return
        self.quiet += 1
        p = self.ev(l['a'] if l['k'] == 'idx' else l['e'] if l['k'] == 'un' else l['a'][0])
        self.quiet -= 1
        if p is None or p[0] not in ('ptr', 'arr') or p[3] is None or p[3][0] != 'own':
            return
        k = self.kind(self.norm(v[1])) if v is not None and v[0] == 'int' else None
        if k is not None and v[1].get(()):
            k = None
        w = self.vals.get(p[3][1], k)
        self.vals[p[3][1]] = k if k is not None and w == k else 'mixed'

    def shared(self, v):
        if v is not None and v[0] in ('ptr', 'arr') and v[3] is not None and v[3][0] == 'own':
            self.vals[v[3][1]] = 'mixed'

    def load(self, sp, I=None):
        """A value of an array whose values are known to be positions."""
        if sp is not None and sp[0] == 'own':
            k = self.vals.get(sp[1])
            if not k or k == 'mixed':
                return None
            a = self.fresh('s')
            x = list(a)[0][0]
            self.loaded.add(x)
            self.typed[x] = k
            self.range[x] = ({}, add(self.tot(k[1], k[2]), ONE) if k[0] == 'start' else self.tot(k[1], k[2]) if k[0] == 'idx' else None)
            return ('int', a)
        if sp is None or sp[0] not in ('ids', 'splits', 'val'):
            return None
        memo = (sp, tuple(sorted(self.norm(I).items()))) if I is not None and sp[0] != 'val' else None
        a = self.loads.get(memo) if memo else None
        if a is None:
            a = self.fresh('s')
            x = list(a)[0][0]
            self.loaded.add(x)
            if sp[0] == 'splits':
                self.range[x] = ({}, add(self.tot(sp[1], sp[2]), ONE))
                self.typed[x] = ('start',) + sp[1:]
            elif sp[0] == 'ids':
                self.range[x] = ({}, self.tot(sp[1], sp[2] - 1))
            else:
                self.range[x] = ({}, dict(sp[1]))
            if memo:
                self.loads[memo] = a
        return ('int', a)

    # ---- the check
    def atoms(self, p):
        return set(a for m in p for a in m)

    def reaches(self, p, upper, guards):
        """The largest (smallest) value of p, or None."""
        for _ in range(12):
            idx = [a for a in self.atoms(p) if a in self.range]
            if not idx:
                return p
            if len(idx) > 1 and self.loaded & set(idx):
                return None     # the list an element is in goes with the element
            # inner indexes first: their bounds may name outer ones
            idx.sort(key=lambda a: int(re.sub(r'\D', '', a) or 0))
            a = idx[-1]
            c = None
            for m, k in p.items():
                if a in m:
                    if m != (a,):
                        return None
                    c = k
            lo, hi = self.range[a]
            up = (c > 0) == upper
            bound, out = None, []
            for g in guards:
                op, x, y = g
                if op == 'opaque':
                    if a in x:
                        return None
                    continue
                k = x.get((a,), 0)
                if k == 0:
                    if a in self.atoms(x):
                        return None
                    continue
                if abs(k) != 1:
                    return None
                rest = {m: v for m, v in x.items() if m != (a,)}
                # x < 0, x == 0, x != 0 with x = k*a + rest
                if op == '==':
                    bound = mul(num(-1 / k), rest)
                    break
                if op == '!=':
                    out.append(mul(num(-1 / k), rest))
                if op == '<':
                    # k=1: a < -rest; k=-1: a > rest
                    if (k > 0) == up:
                        b = add(mul(num(-1), rest), num(-1)) if k > 0 else add(rest, num(1))
                        if bound is None:
                            bound = b
                        else:
                            return None
            full = add(hi, num(-1)) if up else lo
            if full is None:
                return None
            if bound is not None:
                d = self.norm(add(full, bound, -1))
                if set(d) <= {()}:
                    k = d.get((), 0)
                    # the tighter of the two
                    full = bound if (k >= 0) == up else full
                else:
                    return None
            for x in out:
                # a single value that is left out
                d = self.norm(add(full, x, -1))
                if not set(d) <= {()}:
                    return None
                if d == {}:
                    full = add(full, num(-1 if up else 1))
            p = self.norm(add({m: v for m, v in p.items() if m != (a,)}, mul(num(c), full)))
        return None

    def check(self, S, I, e, name):
        S, I = self.norm(S), self.norm(I)
        guards = [(op, self.norm(x) if op != 'opaque' else x, y) for op, x, y in self.guards]
        key = (e['l'], text(e))
        r = None
        U = self.reaches(I, True, guards)
        if U is not None:
            d = self.norm(add(add(S, num(-1)), U, -1))
            if set(d) <= {()}:
                r = d.get((), 0) >= 0
                if not r and self.atoms(I) & self.loaded:
                    r = None        # the last list may be empty, or last element not among them
                elif not r:
                    self.out.setdefault(key, (e, '`%s`: the index reaches %s of an array of %s elements' % (text(e)[:60], self.say(U), self.say(S))))
        if r is not False:
            w = self.wrong_axis(S, I, e, key, guards, name)
            r = w if w is not None else r
        L = self.reaches(I, False, guards) if not self.atoms(I) & self.loaded else None
        if L is not None and set(L) <= {()}:
            if L.get((), 0) < 0:
                self.out.setdefault(key, (e, '`%s`: the index starts at %s' % (text(e)[:60], L.get((), 0))))
                r = False
        self.accesses.setdefault(key, set()).add('?' if r is None else r)

    def kind(self, p):
        k = self.kind1(p)
        return k and (k[0], k[1], self.ax(k[1], k[2]))

    def kind1(self, p):
        """What an index counts: ('idx', shape, axis) elements over an axis,
        ('start', ..) where a list begins, ('loc', ..) elements within a list."""
        m = [x for x in p if x != ()]
        if any(len(x) != 1 for x in m) or abs(p.get((), 0)) > 1:
            return None
        if len(m) == 1 and p[m[0]] == 1:
            a = m[0][0]
            if a in self.typed:
                return self.typed[a]
            if a in self.range:
                lo, hi = self.range[a]
                if hi is None or lo is None:
                    return None
                hi = self.norm(hi)
                ax = self.axis(hi)
                if ax and lo == {}:
                    return ('idx',) + ax
                k = self.kind(hi)
                if k and k[0] == 'start':
                    return ('idx',) + k[1:]
            return None
        if len(m) == 2:
            one, two = sorted(m, key=lambda x: p[x])
            k, w = self.kind({one: Fraction(1)}), self.kind({two: Fraction(1)})
            if k is None or w is None or k[1:] != w[1:] or p[two] != 1:
                return None
            if p[one] == -1 and k[0] == 'start' and w[0] in ('idx',):
                return ('loc',) + k[1:]
            if p[one] == 1 and {k[0], w[0]} == {'loc', 'start'}:
                return ('idx',) + k[1:]
        return None

    def wrong_axis(self, S, I, e, key, guards, name=''):
        """An index over one axis of a shape used in an array over another one."""
        ax = self.axis(S)
        if not ax:
            self.both(S, I, e, name, guards)
            return None
        k = self.kind(I)
        if k is not None and k[1] != ax[0]:
            self.both(S, I, e, name, guards)
        if k is None:
            return self.mixed(S, I, e, ax, guards)
        if k[1] != ax[0] or (k[2] > 500) != (ax[1] > 500) and not self.deeper(k, ax):
            return None
        if k[0] == 'loc' and k[2] == 1 and self.flat(k[1]):
            return None
        if any(g[0] != 'opaque' and self.atoms(I) & self.atoms(g[1]) for g in guards):
            return None
        if k[0] == 'start':
            if k[2] == ax[1]:
                return True
        elif k[0] == 'idx' and k[2] == ax[1]:
            return True
        if k[0] == 'loc' and k[2] < ax[1]:
            return None
        nm = lambda k: k if k < 500 else 'NumAxes() - %d' % (LAST + 1 - k)
        what = {'idx': 'an index over axis %s', 'start': 'where a list of axis %s begins', 'loc': 'an index within a list of axis %s'}[k[0]] % nm(k[2])
        self.low.append((e, '`%s`: %s is used in an array over axis %s of the same shape' % (text(e)[:60], what, nm(ax[1]))))
        return False

    def both(self, S, I, e, name, guards):
        """One array indexed over two axes of the same shape."""
        k = self.kind(I)
        if k is None or k[0] == 'loc' or self.flat(k[1]) or any(g[0] != 'opaque' and self.atoms(I) & self.atoms(g[1]) for g in guards):
            return
        at = self.over.setdefault((tuple(sorted(S.items())), name), {})
        for (R, ax), o in at.items():
            if R == k[1] and ax != k[2] and (ax > 500) == (k[2] > 500):
                self.low.append((e, '`%s`: an index over axis %d of a shape, where `%s` is indexed over axis %d of it in line %d' % (text(e)[:60], k[2], name, ax, o['l'])))
        at.setdefault((k[1], k[2]), e)

    def deeper(self, k, ax):
        """Whether an axis counted from the end is another one than an axis counted from the start."""
        hi, lo = max(k[2], ax[1]), min(k[2], ax[1])
        return k[1] in self.minax and self.minax[k[1]] - (LAST - hi) > lo

    def mixed(self, S, I, e, ax, guards):
        """A sum of positions in different axes of one shape."""
        m = [x for x in I if x != ()]
        if len(m) != 2 or any(len(x) != 1 or abs(I[x]) != 1 for x in m) or abs(I.get((), 0)) > 1:
            return None
        ks = [self.kind({x: Fraction(1)}) for x in m]
        if any(k is None or k[1] != ax[0] or (k[2] > 500) != (ax[1] > 500) for k in ks) or self.flat(ax[0]):
            return None
        if I[m[0]] != I[m[1]] and ks[0][0] == ks[1][0] == 'start' and ks[0][2] == ks[1][2]:
            return None
        if any(g[0] != 'opaque' and self.atoms(I) & self.atoms(g[1]) for g in guards):
            return None
        word = {'idx': 'an index over axis %d', 'start': 'where a list of axis %d begins', 'loc': 'an index within a list of axis %d'}
        a, b = [word[k[0]] % k[2] for k in ks]
        if I[m[0]] != I[m[1]]:
            a, b = (a, b) if I[m[0]] > 0 else (b, a)
        self.low.append((e, '`%s`: %s %s %s is no index over axis %d of the same shape' % (text(e)[:60], a, 'plus' if I[m[0]] == I[m[1]] else 'less', b, ax[1])))
        return False

    def flat(self, R):
        """Whether there is only one list, whatever it is called."""
        return self.norm(self.tot(R, 0)) == ONE

    low = ()

    def axis(self, p):
        m = [x for x in p if x != ()]
        if len(m) == 1 and len(m[0]) == 1 and p[m[0]] == 1 and abs(p.get((), 0)) <= 1:
            x = re.match(r'T:(.*):(\d+)$', m[0][0])
            if x:
                return x.group(1), self.ax(x.group(1), int(x.group(2)))
        return None

    def say(self, p):
        def nm(a):
            m = re.match(r'T:(.*?)(?:#\w+)?:(\d+)$', a)
            if m:
                k = int(m.group(2))
                return '%s.TotSize(%s)' % (m.group(1), k if k < 500 else 'NumAxes() - %d' % (LAST + 1 - k))
            return re.sub(r'#.*', '', re.sub(r'^\w+:', '', a))
        out = ''
        for m, c in sorted(p.items(), key=lambda x: (not x[0], x[0])):
            s = '*'.join(nm(a) for a in m)
            c = int(c) if c == int(c) else c
            t = str(abs(c)) if not m else s if abs(c) == 1 else '%s*%s' % (abs(c), s)
            out += (' - ' if c < 0 else ' + ' if out else '') + t
        return out.strip() or '0'

    # ---- guards
    def guard(self, c, pos):
        c = strip(c)
        if c is None:
            return
        k = c['k']
        if k == 'un' and c['op'] == '!':
            return self.guard(c['e'], not pos)
        if k == 'bin' and c['op'] in ('&&', '||'):
            if (c['op'] == '&&') == pos:
                self.guard(c['a'], pos)
                self.guard(c['b'], pos)
            else:
                self.opaque(c)
            return
        if k == 'bin' and c['op'] in ('<', '<=', '>', '>=', '==', '!='):
            self.quiet += 1
            a, b = self.ev(c['a']), self.ev(c['b'])
            self.quiet -= 1
            if a is not None and b is not None and a[0] == b[0] == 'int':
                d = self.norm(add(a[1], b[1], -1))
                op = c['op']
                if not pos:
                    op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
                if op == '>':
                    d, op = mul(num(-1), d), '<'
                elif op == '>=':
                    d, op = add(mul(num(-1), d), num(-1)), '<'
                elif op == '<=':
                    d, op = add(d, num(-1)), '<'
                self.guards.append((op, d, None))
                if op == '==':
                    pass
            self.opaque(c, skip=True)
            return
        self.opaque(c)

    def opaque(self, c, skip=False):
        """What is compared through data says nothing definite about the indexes in it."""
        at = set()
        self.quiet += 1
        for n in walk(c):
            if n['k'] in ('idx', 'opcall', 'call') or n['k'] == 'ref' and not skip:
                for m in walk(n):
                    if m['k'] == 'ref':
                        v = self.env.get(m.get('d'))
                        if v is not None and v[0] == 'int':
                            at |= self.related(v[1])
                        elif v is not None and v[0] == 'dep':
                            at |= v[1]
        for n in walk(c):
            if n['k'] == 'ref':
                at |= self.deps.get(n.get('d'), set())
        self.quiet -= 1
        if at:
            self.guards.append(('opaque', at, None))

    def related(self, p):
        return set(a for a in self.atoms(self.norm(p)) if a in self.range)

    deps = {}

    # ---- calls
    def e_cond(self, e):
        if fatal(e['f']):
            self.ev(e['c'])
            self.learn(e['c'])
            return self.ev(e['t'])
        self.ev(e['c'])
        g = len(self.guards)
        self.guard(e['c'], True)
        a = self.ev(e['t'])
        del self.guards[g:]
        self.guard(e['c'], False)
        b = self.ev(e['f'])
        del self.guards[g:]
        return a if a == b else self.either(a, b)

    def either(self, a, b):
        if a is None or b is None or a[0] != b[0]:
            return ('ptr', None, {}, None, '?') if (a or b or ('',))[0] == 'ptr' else None
        if a[0] == 'int':
            return a if self.norm(a[1]) == self.norm(b[1]) else ('int', self.fresh())
        if a[0] == 'ptr':
            if a[1] is not None and b[1] is not None and self.norm(a[1]) == self.norm(b[1]) and a[2] == b[2]:
                return ('ptr', a[1], a[2], a[3] if a[3] == b[3] else None, a[4])
            return ('ptr', None, {}, None, a[4])
        if a[0] == 'arr':
            if self.norm(a[1]) == self.norm(b[1]) and self.norm(a[2]) == self.norm(b[2]):
                return ('arr', a[1], a[2], a[3] if a[3] == b[3] else None)
            f = self.fresh('d:')
            return ('arr', f, f, None)
        if a[0] == 'rag':
            return ('rag', a[1] if a[1] == b[1] else self.newshape(), a[2] if a[2] == b[2] else None)
        return None

    def learn(self, c):
        c = strip(c)
        if c is None or c['k'] != 'bin':
            return
        if c['op'] == '&&':
            self.learn(c['a'])
            self.learn(c['b'])
            return
        if c['op'] != '==':
            return
        # x.NumAxes() == n
        for a, b in ((c['a'], c['b']), (c['b'], c['a'])):
            x, y = strip(a), strip(b)
            if x['k'] == 'call' and shortname(x.get('f', '')) == 'NumAxes' and x.get('o') is not None:
                v = self.ev(x['o'])
                y = self.ev(y)
                if v is not None and v[0] == 'rag' and y is not None and y[0] == 'int' and set(y[1]) <= {()} and y[1]:
                    self.know_axes(v[1], int(y[1][()]))
                return
        self.quiet += 1
        a, b = self.ev(c['a']), self.ev(c['b'])
        self.quiet -= 1
        if a is not None and b is not None and a[0] == b[0] == 'int':
            self.unify(a[1], b[1])

    def e_ctor(self, e):
        vs = [self.ev(a) for a in e['a']]
        t = e['t'].replace('const ', '')
        if e.get('copy') or e.get('move'):
            return vs[0] if vs else None
        n = len(vs)
        if t.startswith('k2::Array1<'):
            if n >= 2 and vs[1] is not None and vs[1][0] == 'int':
                return ('arr', vs[1][1], vs[1][1], ('own', self.tick()) if t.startswith('k2::Array1<int') and (n == 2 or all(a['k'] == 'dflt' for a in e['a'][2:])) else None)
            if n >= 2 and vs[1] is not None and vs[1][0] == 'arr':
                return ('arr', vs[1][1], vs[1][1], None)
            if n == 1 and vs[0] is not None and vs[0][0] == 'arr':
                return vs[0]
            if n and vs[0] is not None and vs[0][0] == 'int':   # (dim, region, offset)
                return ('arr', vs[0][1], vs[0][1], None)
            f = self.fresh('d:') if n else {}
            return ('arr', f, f, None)
        if t.startswith('k2::Array2<'):
            if n >= 3 and all(v is not None and v[0] == 'int' for v in vs[1:3]):
                return ('arr2', vs[1][1], vs[2][1])
            return None
        if t.startswith('std::vector<'):
            if n >= 1 and vs[0] is not None and vs[0][0] == 'int' and strip(e['a'][0])['k'] != 'list':
                return ('arr', vs[0][1], vs[0][1], None)
            if n == 1 and strip(e['a'][0])['k'] == 'list':
                k = num(len(strip(e['a'][0])['a']))
                return ('arr', k, k, None)
            f = self.fresh('d:') if n else {}
            return ('arr', f, f, None)
        if t.startswith('k2::Ragged<'):
            if n == 2 and vs[0] is not None and vs[0][0] == 'rag' and vs[1] is not None and vs[1][0] == 'arr':
                return ('rag', vs[0][1], None)
            if n == 1 and vs[0] is not None and vs[0][0] == 'rag':
                return ('rag', vs[0][1], None)
            return ('rag', self.newshape(), None)
        if t.startswith('k2::RaggedShape') and 'Layer' not in t:
            if n == 1 and vs[0] is not None and vs[0][0] == 'rag':
                return vs[0]
            return ('rag', self.newshape(), None)
        if t.startswith('k2::Renumbering'):
            if n >= 2 and vs[1] is not None and vs[1][0] == 'int':
                return ('ren', vs[1][1], self.fresh('N'))
            if n and vs[0] is not None and vs[0][0] == 'arr':
                return ('ren', vs[0][1], self.fresh('N'))
            return ('ren', self.fresh(), self.fresh('N'))
        return None

    def e_list(self, e):
        for a in e['a']:
            self.ev(a)
        return None

    def e_lambda(self, e):
        return ('lambda', e)

    def tensor(self, e, s):
        return self.arr(s)

    def arr(self, s):
        return ('arr', s, s, None)

    def e_opcall(self, e):
        op, a = e['op'], e['a']
        if op == '=' and len(a) == 2:
            v = self.ev(a[1])
            l = strip(a[0])
            if 'k2::Array' in e.get('f', '') and (v is None or v[0] == 'int') and not isinstance(strip(a[1]).get('t'), str) | ('Array' in str(strip(a[1]).get('t'))):
                self.ev(l)
                return None
            if v is not None and v[0] == 'int' and 'k2::Array' in e.get('f', ''):
                return None
            self.assign(l, v)
            return v
        if op in ('==', '!=', '<', '<<', '>>', '&', '&&', '||', '->', '*', '+', '-', '++', '--', '+=', '-=', '!', '>', '<=', '>='):
            vs = [self.ev(x) for x in a]
            if op in ('->', '*') and vs:
                return vs[0]
            if op in ('++', '--', '+=', '-='):
                self.forget(a[0])
            return None
        x = strip(a[0])
        if op == '()' and x['k'] == 'ref' and x.get('d') in self.lambdas:
            return self.run_lambda(self.lambdas[x['d']], [self.ev(y) for y in a[1:]])
        if op == '()' and x['k'] == 'lambda':
            return self.run_lambda(x, [self.ev(y) for y in a[1:]])
        v = self.ev(x)
        vs = [self.ev(y) for y in a[1:]]
        if op == '[]' and v is not None and v[0] == 'arr' and len(vs) == 1:
            if vs[0] is not None and vs[0][0] == 'arr':
                i = self.load(vs[0][3])
                if i is not None and not self.quiet:
                    self.check(v[1], i[1], e, text(x))
                return ('arr', vs[0][1], vs[0][1], v[3])
            if vs[0] is not None and vs[0][0] == 'int':
                if not self.quiet:
                    self.check(v[1], vs[0][1], e, text(x))
                t = e.get('t')
                t = t.replace('const ', '').rstrip('& ') if isinstance(t, str) else ''
                if t in ('int', 'long', 'unsigned int'):
                    return ('int', self.fresh())
                if t.startswith(('k2::', 'std::vector')):
                    return self.initial(self.tick(), text(e), t)
            return None
        if op in ('()', '[]') and v is not None and v[0] == 'arr2' and len(vs) == 2 and op == '()':
            for s, i in zip(v[1:], vs):
                if i is not None and i[0] == 'int' and not self.quiet:
                    self.check(s, i[1], e, text(x))
            t = e.get('t')
            if isinstance(t, str) and t.replace('const ', '').rstrip('& ') in ('int', 'long'):
                return ('int', self.fresh())
            return None
        return None

    def assign(self, l, v):
        if l is None:
            return
        if l['k'] == 'ref':
            self.env[l['d']] = self.keep(v, l.get('t'), l)
        elif l['k'] == 'mem':
            o = strip(l.get('o')) if l.get('o') is not None else None
            if o is not None and o['k'] == 'this':
                self.mem[l['n']] = self.keep(v, l.get('t'), l)
            elif o is not None and o['k'] == 'ref' and (self.env.get(o['d']) or ('',))[0] == 'rag':
                w = self.env[o['d']]
                if l['n'] == 'shape':
                    self.env[o['d']] = ('rag', v[1] if v is not None and v[0] == 'rag' else self.newshape(), w[2])
                elif l['n'] == 'values':
                    self.env[o['d']] = ('rag', w[1], v[1] if v is not None and v[0] == 'arr' else self.fresh('d:'))
            else:
                self.mem[('x', text(l))] = self.keep(v, l.get('t'), l)
        elif l['k'] == 'un' and l['op'] == '*':
            x = strip(l['e'])
            if x['k'] == 'ref':
                self.env[x['d']] = self.keep(v, l.get('t'), l)
        else:
            self.ev(l)

    def rebinds(self, e, i):
        """Whether the callee may give the object at argument i another size."""
        cs = self.A.callees(e, self.fn) if self.A is not None else []
        if not cs:
            return True
        return any(self.rebind1(g, i, 0) for g in cs)

    def rebind1(self, g, i, depth):
        memo = self.A.__dict__.setdefault('rebind', {})
        k = (id(g), i)
        if k in memo:
            return memo[k]
        memo[k] = False
        memo[k] = self.rebind2(g, i, depth)
        return memo[k]

    def rebind2(self, g, i, depth):
        if g.body is None or depth > 8 or i >= len(g.params):
            return True
        d = g.params[i].get('d')
        for n in walk(g.body):
            if n['k'] == 'opcall' and n['op'] == '=':
                l = strip(n['a'][0])
                while l is not None and l['k'] in ('mem', 'un', 'opcall', 'idx'):
                    l = strip(l.get('o') if l['k'] == 'mem' else l['e'] if l['k'] == 'un' else l['a'][0] if l['k'] == 'opcall' else l['a'])
                if l is not None and l['k'] == 'ref' and l.get('d') == d:
                    return True
            if n['k'] == 'call':
                o = strip(n['o']) if n.get('o') is not None else None
                if o is not None and any(m['k'] == 'ref' and m.get('d') == d for m in walk(o)) and shortname(n.get('f', '')) in ('Resize', 'push_back', 'emplace_back', 'resize', 'swap', 'clear', 'insert', 'SetAttr', 'reset'):
                    return True
                for j, a in enumerate(n['a']):
                    x = strip(a)
                    if x is not None and x['k'] == 'un' and x['op'] in ('&', '*'):
                        x = strip(x['e'])
                    if x is not None and x['k'] == 'ref' and x.get('d') == d:
                        for h in self.A.callees(n, g) or [None]:
                            if h is None:
                                return not shortname(n.get('f', '')) in ('move', 'Data', 'swap') or True
                            t = h.params[j]['t'] if j < len(h.params) else '&'
                            if (t.endswith('&') and not t.startswith('const ') or is_ptr(t) and not t.startswith('const ')) and self.rebind1(h, j, depth + 1):
                                return True
        return False

    def e_call(self, e):
        f = e.get('f', '')
        name = shortname(f)
        o = strip(e['o']) if e.get('o') is not None else None
        ov = self.ev(o) if o is not None else None
        if o is None and e.get('c') is not None and not f:
            self.ev(e['c'])
        args = e['a']
        if name == 'EvalDevice' and len(args) == 3:
            n = self.int(args[1])
            l = self.lam_of(args[2])
            if l is not None:
                i = self.fresh('k')
                self.range[list(i)[0][0]] = ({}, n)
                self.run_lambda(l, [('int', i)])
            return None
        if name == 'Eval2Device' and len(args) == 4:
            m, n = self.int(args[1]), self.int(args[2])
            l = self.lam_of(args[3])
            if l is not None:
                i, j = self.fresh('k'), self.fresh('k')
                self.range[list(i)[0][0]] = ({}, m)
                self.range[list(j)[0][0]] = ({}, n)
                self.run_lambda(l, [('int', i), ('int', j)])
            return None
        vs = [self.ev(a) for a in args]
        for i, v in enumerate(vs):
            if not self.reads_only(e, i):
                self.shared(v)
        t = e.get('t') if isinstance(e.get('t'), str) else ''
        if f.startswith('std::') and name in ('move', 'forward') and vs:
            return vs[0]
        if name in ('min', 'max') or f.startswith('std::') and name in ('abs',):
            return ('int', self.fresh())
        if o is None and f.startswith(('torch::', 'at::')) and name in ('empty', 'zeros', 'full', 'ones') and args:
            s = [m for m in walk(args[0]) if m['k'] == 'list']
            if len(s) == 1 and len(s[0]['a']) == 1:
                return self.tensor(e, self.int(s[0]['a'][0]))
            return None
        r = self.method(name, ov, vs, e, o)
        if r is not None:
            return r if r != () else None
        # what the callee is given to fill in may change its size
        for i, a in enumerate(args):
            x = strip(a)
            if x is None:
                continue
            by_ptr = x['k'] == 'un' and x['op'] == '&'
            y = strip(x['e']) if by_ptr else x
            if y is None or y['k'] not in ('ref', 'mem'):
                continue
            yt = y.get('t') if isinstance(y.get('t'), str) else ''
            if by_ptr or is_ptr(yt) and ('k2::' in yt or 'std::vector' in yt):
                if self.rebinds(e, i):
                    self.forget(y)
            elif not self.const_arg(e, i):
                if self.rebinds(e, i):
                    self.forget(y)
        if o is not None and o['k'] == 'this':
            self.mem = {}
        r = self.function(name, vs, e)
        if r is not None:
            return r
        if t.replace('const ', '') in ('int', 'long', 'unsigned int', 'bool', 'unsigned long'):
            return ('int', self.fresh())
        return self.initial(self.tick(), name, t)

    def reads_only(self, e, i):
        cs = self.A.callees(e, self.fn) if self.A is not None else []
        return bool(cs) and all(i < len(g.params) and g.params[i]['t'].startswith('const ') for g in cs)

    def const_arg(self, e, i):
        cs = self.A.callees(e, self.fn) if self.A is not None else []
        ts = [g.params[i]['t'] for g in cs if i < len(g.params)]
        return bool(ts) and all(not t.endswith('&') or t.startswith('const ') for t in ts) or not cs and False

    def lam_of(self, a):
        x = strip(a)
        if x is None:
            return None
        if x['k'] == 'lambda':
            return x
        if x['k'] == 'ref':
            return self.lambdas.get(x.get('d'))
        if x['k'] == 'ctor' and x['a']:
            return self.lam_of(x['a'][0])
        return None

    def method(self, name, v, vs, e, o):
        if v is None:
            return None
        k = v[0]
        n = len(vs)
        arg = vs[0][1] if n and vs[0] is not None and vs[0][0] == 'int' else None
        const = int(arg[()]) if arg is not None and set(arg) == {()} else 0 if arg == {} else None
        if k == 'rag' and const is None and arg is not None:
            m = 'A:%s' % v[1]
            if arg.get((m,)) == 1 and set(arg) <= {(m,), ()} and -4 < arg.get((), 0) < 0:
                const = self.ax(v[1], LAST + 1 + int(arg[()]))
        if k == 'arr':
            if name in ('Dim', 'size', 'NumElements'):
                return ('int', v[1])
            if name in ('Data', 'data', 'begin', 'data_ptr', 'accessor'):
                return ('ptr', v[2], {}, v[3], text(o))
            if name in ('Clone', 'To', 'to', 'Generic', 'Specialize', 'Shared'):
                return v if v[3] is None or v[3][0] != 'own' else ('arr', v[1], v[2], None)
            if name == 'Arange' and n == 2 and arg is not None and vs[1] is not None and vs[1][0] == 'int':
                return self.arr(add(vs[1][1], arg, -1))
            if name == 'Range' and n >= 2 and vs[1] is not None and vs[1][0] == 'int':
                return self.arr(vs[1][1])
            if name in ('Resize', 'resize') and arg is not None:
                self.assign(o, self.arr(arg))
                return ()
            if name in ('push_back', 'emplace_back', 'insert', 'pop_back', 'clear', 'assign', 'erase', 'reserve', 'swap', 'shrink_to_fit'):
                if name not in ('reserve', 'shrink_to_fit'):
                    self.forget(o)
                    if o['k'] not in ('ref', 'mem'):
                        self.mem = {}
                return ()
            if name in ('Back', 'back', 'front', 'at'):
                t = e.get('t') if isinstance(e.get('t'), str) else ''
                if t.replace('const ', '').rstrip('& ') in ('int', 'long'):
                    return ('int', self.fresh())
                return self.initial(self.tick(), text(e), t) or ()
            if name in ('Context', 'GetRegion', 'IsValid', 'empty', 'ElementSize', 'GetDtype'):
                return ()
            return None
        if k == 'arr2':
            if name == 'Dim0':
                return ('int', v[1])
            if name == 'Dim1' or name == 'ElemStride0':
                return ('int', v[2])
            if name in ('Accessor',):
                return v
            if name == 'Data':
                s = mul(v[1], v[2])
                return ('ptr', s, {}, None, text(o))
            if name == 'Row' and n == 1:
                return self.arr(v[2])
            if name == 'Col' and n == 1:
                return self.arr(v[1])
            return None
        if k == 'rag':
            R = v[1]
            if name in ('RowSplits', 'RowIds', 'TotSize') and const is not None and const < 500:
                self.minax[R] = max(const, self.minax.get(R, 0))
            if name == 'RowSplits' and n == 1:
                if const is None:
                    return self.arr(self.fresh('d:'))
                s = add(self.tot(R, const - 1), ONE)
                return ('arr', s, s, ('splits', R, const))
            if name == 'RowIds' and n == 1:
                if const is None:
                    return self.arr(self.fresh('d:'))
                s = self.tot(R, const)
                return ('arr', s, s, ('ids', R, const))
            if name in ('TotSize',) and n == 1:
                return ('int', self.tot(R, const) if const is not None else self.fresh())
            if name == 'Dim0':
                return ('int', self.tot(R, 0))
            if name == 'NumElements':
                return ('int', self.numel(R))
            if name == 'NumAxes':
                return ('int', num(self.naxes[R]) if R in self.naxes else atom('A:%s' % R))
            if name in ('Clone', 'To', 'Generic', 'Specialize', 'ToFloat', 'ToInt'):
                return ('rag', R, v[2])
            if name == 'RemoveAxis':
                return ('rag', self.newshape(), None)
            if name in ('Context', 'MaxSize', 'Layers', 'Check', 'Populate', 'Validate', 'Iterator', 'Index'):
                return ('int', self.fresh()) if name == 'MaxSize' else ()
            return None
        if k == 'ren':
            if name == 'Keep':
                return ('arr', v[1], add(v[1], ONE), None)
            if name == 'NumNewElems':
                return ('int', v[2])
            if name == 'NumOldElems':
                return ('int', v[1])
            if name == 'Old2New':
                ex = vs[0][1] if n and vs[0] is not None and vs[0][0] == 'int' else {}
                return ('arr', add(v[1], ex), add(v[1], ONE), None)
            if name == 'New2Old':
                ex = vs[0][1] if n and vs[0] is not None and vs[0][0] == 'int' else {}
                return ('arr', add(v[2], ex), add(v[2], ONE), ('val', tuple(sorted(self.norm(v[1]).items()))) if ex == {} else None)
            return None
        if k == 'ptr' and o is not None:
            return None
        return None

    def function(self, name, vs, e):
        def a(i, kind='arr'):
            return vs[i] if i < len(vs) and vs[i] is not None and vs[i][0] == kind else None
        args = e['a']
        if name == 'Range' and a(1, 'int'):
            return self.arr(vs[1][1])
        if name == 'Index' and len(args) == 3 and a(0) and a(2):
            pass
        if name in ('RaggedShape2', 'RaggedShape3'):
            R = self.newshape()
            k = 1
            ok = False
            for j in range(0, len(vs) - 2, 3):
                if a(j):
                    self.totv[(R, k - 1)] = add(vs[j][1], ONE, -1)
                if a(j + 1):
                    self.totv[(R, k)] = vs[j + 1][1]
                elif a(j + 2, 'int') and vs[j + 2][1] != num(-1):
                    self.totv[(R, k)] = vs[j + 2][1]
                k += 1
            self.naxes[R] = k
            return ('rag', R, None)
        if name == 'GetLayer' and a(0, 'rag') and a(1, 'int') and set(vs[1][1]) <= {()}:
            i = int(vs[1][1].get((), 0))
            R = self.newshape()
            self.totv[(R, 0)], self.totv[(R, 1)], self.naxes[R] = self.tot(vs[0][1], i), self.tot(vs[0][1], i + 1), 2
            return ('rag', R, None)
        if name == 'RegularRaggedShape' and a(1, 'int') and a(2, 'int'):
            R = self.newshape()
            self.totv[(R, 0)], self.totv[(R, 1)], self.naxes[R] = vs[1][1], mul(vs[1][1], vs[2][1]), 2
            return ('rag', R, None)
        if name == 'FsaToFsaVec' and a(0, 'rag'):
            R, S = self.newshape(), vs[0][1]
            self.totv[(R, 0)], self.totv[(R, 1)], self.totv[(R, 2)], self.naxes[R] = ONE, self.tot(S, 0), self.tot(S, 1), 3
            return ('rag', R, None)
        if name == 'ComposeRaggedShapes' and a(0, 'rag') and a(1, 'rag') and vs[0][1] in self.naxes:
            R, x, y = self.newshape(), vs[0][1], vs[1][1]
            n = self.naxes[x]
            for k in range(n):
                self.totv[(R, k)] = self.tot(x, k)
            for k in range(1, 4):
                self.totv[(R, n - 1 + k)] = self.tot(y, k)
            if y in self.naxes:
                self.naxes[R] = n + self.naxes[y] - 1
            return ('rag', R, None)
        return None

    # ---- lambdas
    def run_lambda(self, l, vs):
        if l['b'] is None or self.depth > 6:
            return None
        self.depth += 1
        env = dict(self.env)
        g = len(self.guards)
        for p, v in zip(l['p'], vs):
            self.env[p['d']] = v
        for c in l['cap']:
            if c.get('i') is not None and c.get('d') is not None:
                self.env[c['d']] = self.ev(c['i'])
        self.st(l['b'])
        del self.guards[g:]
        mine = set()
        for n in walk(l['b']):
            if n['k'] == 'var':
                mine.add(n.get('d'))
        new = self.env
        self.env = {d: new.get(d, v) for d, v in env.items()}
        self.depth -= 1
        t = l.get('ret') or ''
        return ('int', self.fresh()) if t in ('int', 'bool', 'long', 'char') else None

    # ---- statements
    def st(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + n['k'], None)
        if m:
            m(n)
        else:
            self.ev(n)

    def s_blk(self, n):
        g = len(self.guards)
        for x in n['b']:
            self.st(x)
            if x['k'] == 'if' and x.get('f') is None and self.leaves(x['t']):
                self.guard(x['c'], False)
        del self.guards[g:]

    def leaves(self, n):
        if n is None:
            return False
        if n['k'] in ('ret', 'continue', 'break', 'throw'):
            return True
        if n['k'] == 'blk':
            return any(self.leaves(x) for x in n['b'])
        return n['k'] == 'if' and n.get('f') is not None and self.leaves(n['t']) and self.leaves(n['f']) or n['k'] == 'opcall' and fatal(n)

    def s_nop(self, n):
        pass

    s_break = s_continue = s_throw = s_nop

    def s_decl(self, n):
        for v in n['b']:
            self.declare(v)

    def declare(self, v):
        i = v.get('i')
        t = v.get('t') or ''
        x = strip(i)
        if x is not None and x['k'] == 'lambda':
            self.lambdas[v['d']] = x
            return
        if i is None:
            t0 = t.replace('const ', '')
            if t0.startswith(('k2::Array1', 'std::vector')):
                self.env[v['d']] = self.arr({})
            else:
                self.env[v['d']] = self.initial(v['d'], v.get('n') or '?', t)
            return
        w = self.ev(i)
        if w is None or w[0] in ('lambda', 'this'):
            w = self.initial(v['d'], v.get('n') or '?', t)
        elif w[0] == 'int' and t.replace('const ', '').rstrip('& ') not in ('int', 'long', 'unsigned int', 'unsigned long', 'char', 'bool', 'short', 'auto', 'unsigned char'):
            w = self.initial(v['d'], v.get('n') or '?', t)
        self.env[v['d']] = w
        # what a value was computed from
        at = set()
        for m in walk(i):
            if m['k'] == 'ref':
                q = self.env.get(m.get('d'))
                if q is not None and q[0] == 'int' and m.get('d') != v['d']:
                    at |= self.related(q[1])
                at |= self.deps.get(m.get('d'), set())
        if at:
            self.deps = dict(self.deps)
            self.deps[v['d']] = at

    def s_if(self, n):
        if n.get('init'):
            self.st(n['init'])
        if n.get('cv'):
            self.declare(n['cv'])
        c = strip(n['c'])
        self.ev(c)
        g = len(self.guards)
        # a case for the number of axes
        ax = self.axes_case(c)
        e0, m0 = dict(self.env), dict(self.mem)
        n0, s0, t0, x0 = dict(self.naxes), dict(self.sub), dict(self.totv), dict(self.minax)
        if ax and ax[2]:
            self.know_axes(ax[0], ax[1])
        self.guard(c, True)
        self.st(n['t'])
        del self.guards[g:]
        e1, m1 = self.env, self.mem
        r1 = (self.naxes, self.sub, self.totv)
        out1 = self.leaves(n['t'])
        self.env, self.mem = dict(e0), dict(m0)
        self.minax = dict(x0)
        self.naxes, self.sub, self.totv = dict(n0), dict(s0), dict(t0)
        if ax and not ax[2]:
            self.know_axes(ax[0], ax[1])
        self.guard(c, False)
        self.st(n.get('f'))
        del self.guards[g:]
        out2 = n.get('f') is not None and self.leaves(n['f'])
        if out1:
            return
        self.minax = x0
        if out2:
            self.env, self.mem = e1, m1
            self.naxes, self.sub, self.totv = r1
            return
        # both ways go on: what they agree on
        self.sub = {k: v for k, v in self.sub.items() if r1[1].get(k) == v or k not in r1[1] and k not in s0 and False}
        self.naxes = {k: v for k, v in self.naxes.items() if r1[0].get(k, v) == v and (k in r1[0] or k not in n0)}
        for k, v in r1[0].items():
            if k not in self.naxes and k not in n0 and k.startswith('r'):
                self.naxes[k] = v
        for k, v in r1[2].items():
            self.totv.setdefault(k, v)
        for d in set(self.env) | set(e1):
            a, b = self.env.get(d), e1.get(d)
            if a != b:
                self.env[d] = self.either(a, b) if d in self.env and d in e1 else (a if d in self.env else b) if d not in e0 else None
                if self.env[d] is None and d in e0:
                    self.env.pop(d)
        for k in set(self.mem) | set(m1):
            a, b = self.mem.get(k), m1.get(k)
            if a != b:
                w = self.either(a, b) if k in self.mem and k in m1 else None
                if w is None:
                    self.mem.pop(k, None)
                    if k in m0 or k in self.mem:
                        self.mem[k] = ('int', self.fresh()) if (a or b or ('',))[0] == 'int' else None
                else:
                    self.mem[k] = w

    def axes_case(self, c):
        if c is not None and c['k'] == 'bin' and c['op'] in ('==', '!='):
            for a, b in ((c['a'], c['b']), (c['b'], c['a'])):
                x = strip(a)
                if x['k'] == 'call' and shortname(x.get('f', '')) == 'NumAxes' and x.get('o') is not None:
                    v, y = self.ev(x['o']), self.ev(b)
                    if v is not None and v[0] == 'rag' and y is not None and y[0] == 'int' and set(y[1]) == {()}:
                        return v[1], int(y[1][()]), c['op'] == '=='
        return None

    def havoc(self, parts, but=()):
        for p in parts:
            for n in walk(p) if p is not None else ():
                l = None
                if n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    l = strip(n['a'])
                elif n['k'] == 'un' and n['op'] in ('++', '--'):
                    l = strip(n['e'])
                elif n['k'] == 'opcall' and n['op'] in ('=', '+=', '-=', '++', '--'):
                    l = strip(n['a'][0])
                elif n['k'] == 'call' and n.get('o') is not None and shortname(n.get('f', '')) in ('Resize', 'push_back', 'emplace_back', 'resize', 'pop_back', 'clear', 'insert', 'swap'):
                    l = strip(n['o'])
                elif n['k'] == 'call':
                    for a in n['a']:
                        x = strip(a)
                        if x is not None and x['k'] == 'un' and x['op'] == '&':
                            y = strip(x['e'])
                            if y['k'] == 'ref' and self.rebinds(n, n['a'].index(a)):
                                self.forget(y)
                if l is not None and l['k'] == 'un' and l['op'] == '*':
                    l = strip(l['e'])
                if l is not None and l['k'] in ('ref', 'mem') and l.get('d') not in but:
                    self.forget(l)

    def s_for(self, n):
        self.st(n.get('i'))
        iv = self.induction(n)
        d = iv[0] if iv else None
        lo = self.env.get(d) if d else None
        self.havoc([n['b'], n.get('s'), n.get('c')], but=(d,) if d else ())
        g = len(self.guards)
        if iv:
            a = self.fresh('k')
            k = list(a)[0][0]
            up = iv[3]
            E = self.ev(iv[1])
            if lo is not None and lo[0] == 'int' and E is not None and E[0] == 'int':
                if up and not iv[2] and not self.quiet:
                    z = self.norm(add(E[1], lo[1], -1))
                    if set(z) <= {()} and z.get((), 0) <= 0 and self.atoms(self.norm(E[1])) & self.loaded:
                        self.low.append((n, '`%s`: the loop starts where it ends' % text(n.get('c'))[:60]))
                if up:
                    self.range[k] = (lo[1], add(E[1], num(1)) if iv[2] else E[1])
                else:
                    self.range[k] = (E[1] if iv[2] else add(E[1], num(1)), add(lo[1], num(1)))
                self.env[d] = ('int', a)
            else:
                self.env[d] = ('int', self.fresh())
        else:
            for v in (n['i'] or {}).get('b', []) if (n.get('i') or {}).get('k') == 'decl' else []:
                self.forget({'k': 'ref', 'd': v['d'], 'n': v['n'], 't': v.get('t')})
            self.havoc([n.get('s')])
            if n.get('c') is not None:
                self.ev(n['c'])
                self.guard(n['c'], True)
        self.st(n['b'])
        if not iv:
            self.st(n.get('s'))
        del self.guards[g:]
        self.havoc([n['b'], n.get('s')])
        if d:
            self.env[d] = ('int', self.fresh())

    def induction(self, n):
        """(variable, bound, inclusive, upwards) of a plain counting loop."""
        c, s = strip(n.get('c')), strip(n.get('s'))
        if c is None or s is None:
            return None
        d = None
        if s['k'] == 'un' and s['op'] in ('++', '--'):
            x, up = strip(s['e']), s['op'] == '++'
        elif s['k'] == 'bin' and s['op'] in ('+=', '-=') and strip(s['b'])['k'] == 'int' and strip(s['b'])['v'] == 1:
            x, up = strip(s['a']), s['op'] == '+='
        else:
            return None
        if x['k'] != 'ref':
            return None
        d = x['d']
        for m in walk(n['b']):
            if m['k'] == 'bin' and m['op'].endswith('=') and m['op'] not in ('==', '!=', '<=', '>=') and strip(m['a']).get('d') == d:
                return None
            if m['k'] == 'un' and m['op'] in ('++', '--') and strip(m['e']).get('d') == d:
                return None
        cs = [c]
        while cs and cs[0]['k'] == 'bin' and cs[0]['op'] == '&&':
            cs = [strip(cs[0]['a'])] + cs[1:] + [strip(cs[0]['b'])]
        if len(cs) > 1:
            return None
        c = cs[0]
        if c['k'] != 'bin':
            return None
        a, b = strip(c['a']), strip(c['b'])
        op = c['op']
        if a['k'] == 'ref' and a.get('d') == d:
            E = c['b']
        elif b['k'] == 'ref' and b.get('d') == d:
            E = c['a']
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        else:
            return None
        if up and op in ('<', '<=', '!='):
            return d, E, op == '<=', True
        if not up and op in ('>', '>=', '!='):
            return d, E, op == '>=', False
        return None

    def s_while(self, n):
        self.havoc([n['b'], n['c']])
        self.ev(n['c'])
        g = len(self.guards)
        self.guard(n['c'], True)
        self.st(n['b'])
        del self.guards[g:]
        self.havoc([n['b'], n['c']])

    def s_do(self, n):
        c = strip(n['c'])
        if c['k'] in ('int', 'boolean') and not c.get('v'):
            self.st(n['b'])
            return
        self.havoc([n['b'], n['c']])
        self.st(n['b'])
        self.ev(n['c'])
        self.havoc([n['b'], n['c']])

    def s_range(self, n):
        v = self.ev(n['r'])
        self.havoc([n['b']])
        self.env[n['v']['d']] = self.initial(self.tick(), n['v'].get('n') or '?', n['v'].get('t') or '')
        self.st(n['b'])
        self.havoc([n['b']])

    def s_switch(self, n):
        self.ev(n['c'])
        x0 = dict(self.minax)
        self.havoc([n['b']])
        self.st(n['b'])
        self.havoc([n['b']])
        self.minax = x0

    def s_case(self, n):
        self.st(n.get('b'))

    s_default = s_case

    def s_ret(self, n):
        if n.get('e') is not None:
            self.ev(n['e'])

    def s_try(self, n):
        self.st(n['b'])
        for h in n.get('h', []):
            self.st(h)

    def run(self):
        self.low = []
        for p in self.fn.params:
            self.var(p.get('d'), p['n'], p['t'])
        for i in self.fn.d.get('inits') or []:
            v = self.ev(i.get('e') or i.get('i'))
            if i.get('n'):
                self.mem[i['n']] = v
        self.st(self.fn.body)
