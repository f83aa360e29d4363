"""Which elements of an array made by a function are given a value.

An array made without values holds whatever its memory held. Every write to
it that can be seen is recorded with its index (a polynomial over loop and
kernel indexes) and the conditions it is under; the union of the ranges
written on every path is compared with the elements the array has.
"""
import re

from cxx import walk, text, shortname
from cxxpath import strip, fatal, is_ptr
from cxxsize import Size, ONE
from poly import add, mul, num, show_poly

NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
READS = ('Dim', 'Data', 'Context', 'NumElements', 'ElementSize', 'GetDtype', 'IsValid', 'size')
SHARES = ('Range', 'Arange', 'RowSplits', 'RowIds')
# what reads every element of an array
WHOLE = re.compile(r'ExclusiveSum\w*|Sum|New2Old|Old2New|NumNewElems|Max|Equal|MonotonicLowerBound|InvertMonotonicDecreasing|RowIdsToRowSplits|RowSplitsToRowIds|SpliceRowSplits|Append|Cat|Concat|Plus|Minus')


def cond_key(c):
    """(text, side): the condition and whether it is stated the other way round."""
    c = strip(c)
    side = True
    while c['k'] == 'un' and c['op'] == '!':
        c, side = strip(c['e']), not side
    if c['k'] == 'bin' and c['op'] in ('!=', '>=', '>'):
        op = c['op']
        if op == '>':
            return '%s < %s' % (text(c['b']), text(c['a'])), side
        return '%s %s %s' % (text(c['a']), NEG[op], text(c['b'])), not side
    if c['k'] == 'bin' and c['op'] == '<=':
        return '%s < %s' % (text(c['b']), text(c['a'])), not side
    if c['k'] == 'bin' and c['op'] in ('==', '<'):
        return '%s %s %s' % (text(c['a']), c['op'], text(c['b'])), side
    return text(c), side


class Alloc:
    def __init__(self, n, S, name, path, e):
        self.id, self.S, self.name, self.path, self.e = n, S, name, list(path), e
        self.writes = []
        self.known = True
        self.why = ''
        self.used = False
        self.returned = False
        self.result = False
        self.read = False
        self.pointer = False
        self.param = False
        self.early = None
        self.first = None       # read before anything is written: (e, path)
        self.hosts = []         # reads of one element outside kernels: (e, I, writes by then)

    def lost(self, why):
        if self.known:
            self.known, self.why = False, why


class Fill(Size):
    def __init__(self, prog, fn, A=None):
        Size.__init__(self, prog, fn, A)
        self.path = []
        self.allocs = {}
        self.defs = {}
        self.made = {}
        self.memown = {}
        self.keeps = {}
        self.refs = set()
        self.ragown = {}
        self.lhs = None
        self.lhss = set()
        self.rmw = 0
        self.merge_sure = False
        self.arrays = {}        # (shape) -> alloc of the values given with it

    def run(self):
        # arrays a function is given to fill
        again = self.given_again()
        for p in self.fn.params:
            t = (p['t'] or '').strip()
            if p['d'] in again:
                continue
            if re.match(r'k2::Array1<[^&]*> ?\*( const)?$', t):
                S = {('d:%s#%s' % (p['n'], p['d']),): 1}
                k = self.tick()
                a = self.allocs[k] = Alloc(k, S, p['n'], [], {'k': 'param', 'l': self.fn.line})
                a.param = a.result = a.used = True
                self.env[p['d']] = ('arr', S, S, ('own', k))
        Size.run(self)

    def given_again(self):
        """Parameters `p` with `*p = ...` or handed on as they are."""
        out = set()
        for e in walk(self.fn.body):
            if not isinstance(e, dict) or 'k' not in e:
                continue
            if e['k'] in ('call', 'ctor', 'mcall', 'new'):
                out.update(x['d'] for x in map(strip, e.get('a') or []) if x and x['k'] == 'ref' and 'd' in x)
            if e['k'] in ('bin', 'opcall') and e['op'] == '=':
                x = strip(e['a'] if e['k'] == 'bin' else e['a'][0])
                if x['k'] == 'un':
                    x = strip(x['e'])
                    if x['k'] == 'ref' and 'd' in x:
                        out.add(x['d'])
        return out

    # ---- identities
    def own(self, v):
        if v is not None and v[0] in ('arr', 'ptr') and v[3] is not None and v[3][0] == 'own':
            return self.allocs.get(v[3][1])

    def lose(self, v, why):
        a = self.own(v)
        if a:
            a.lost(why)

    def e_ctor(self, e):
        t = e['t'].replace('const ', '')
        v = Size.e_ctor(self, e)
        if e.get('copy') or e.get('move'):
            return v
        n = len(e['a'])
        if t.startswith('k2::Array1<') and v is not None and v[0] == 'arr' and n >= 2:
            x = strip(e['a'][1])
            rest = [a for a in e['a'][2:] if a['k'] != 'dflt']
            ct = e['a'][0].get('t') if isinstance(e['a'][0].get('t'), str) else ''
            if not rest and x is not None and x['k'] not in ('list',) and self.is_dim(e['a'][1]):
                k = self.made.get(id(e))
                if k is None:
                    k = v[3][1] if v[3] is not None and v[3][0] == 'own' else self.tick()
                    self.made[id(e)] = k
                    self.allocs[k] = Alloc(k, v[1], '', self.path, e)
                return ('arr', self.allocs[k].S, self.allocs[k].S, ('own', k))
        elif t.startswith('k2::Renumbering') and n >= 2 and v is not None and v[0] == 'ren' and self.is_dim(e['a'][1]):
            if not [a for a in e['a'][2:] if a['k'] != 'dflt']:
                k = self.made.get(id(e))
                if k is None:
                    k = self.made[id(e)] = self.tick()
                    self.allocs[k] = Alloc(k, v[1], '', self.path, e)
                    self.keeps[tuple(v[2])] = k
                else:
                    v = ('ren', self.allocs[k].S, {m: 1 for m in [t for t, x in self.keeps.items() if x == k][0]})
        elif t.startswith(('k2::Ragged<',)) and n == 2:
            self.quiet += 1
            w = self.ev(e['a'][1])
            self.quiet -= 1
            a = self.own(w)
            if a and v is not None and v[0] == 'rag':
                self.arrays.setdefault(v[1], []).append(a)
                a.result = True
        else:
            for a in e['a']:
                self.quiet += 1
                w = self.ev(a)
                self.quiet -= 1
                if not t.startswith(('k2::RaggedShape', 'k2::Array1')):
                    self.lose(w, 'stored in a %s' % t)
        return v

    def tensor(self, e, s):
        if shortname(e['f']) != 'empty' or s is None:
            return Size.tensor(self, e, s)
        k = self.made.get(id(e))
        if k is None:
            k = self.made[id(e)] = self.tick()
            self.allocs[k] = Alloc(k, s, '', self.path, e)
        return ('arr', self.allocs[k].S, self.allocs[k].S, ('own', k))

    def is_dim(self, a):
        t = a.get('t') if isinstance(a.get('t'), str) else strip(a).get('t')
        t = t if isinstance(t, str) else 'int'
        return t.replace('const ', '').rstrip('& ') in ('int', 'long', 'unsigned int', 'unsigned long', 'auto', 'short')

    def e_mem(self, e):
        if text(e) in self.memown:
            return self.memown[text(e)][0]
        v = Size.e_mem(self, e)
        x = strip(e['o']) if e.get('o') is not None else None
        if e['n'] == 'values' and x is not None and x.get('d') in self.ragown:
            return self.ragown[x['d']]
        if e['n'] == 'values' and e.get('o') is not None:
            self.quiet += 1
            w = self.ev(e['o'])
            self.quiet -= 1
            if w is not None and w[0] == 'rag':
                for a in self.arrays.get(w[1], ()):
                    a.lost('reached through a ragged array')
        return v

    def e_list(self, e):
        for a in e['a']:
            self.lose(self.ev(a), 'kept in a list')
        return None

    def method(self, name, v, vs, e, o):
        if v is not None and v[0] == 'ren' and tuple(v[2]) in self.keeps:
            k = self.keeps[tuple(v[2])]
            a = self.allocs[k]
            if not a.name:
                a.name = 'the kept elements of `%s`' % text(o)
            if name == 'Keep':
                return ('arr', v[1], add(v[1], ONE), ('own', k))
            if name in ('New2Old', 'Old2New', 'NumNewElems', 'Old2Keep') and not self.quiet:
                self.read_by(a, ('arr', v[1]), name, e)
        a = self.own(v)
        if a:
            if name in ('Data', 'data_ptr', 'accessor'):
                a.pointer = True
            if name in ('Range', 'Arange') and len(vs) >= 2 and vs[0] is not None and vs[0] == ('int', {}) and vs[1] is not None and vs[1][0] == 'int':
                return ('arr', vs[1][1], vs[1][1], v[3])
            if name in SHARES or name not in READS + ('Back', '[]', 'operator[]', 'To', 'Clone', 'data_ptr', 'accessor', 'contiguous', 'dim', 'numel', 'stride', 'scalar_type'):
                a.lost('%s()' % name)
        r = Size.method(self, name, v, vs, e, o)
        return r

    def e_call(self, e):
        f = e.get('f', '')
        name = shortname(f)
        if name in ('EvalDevice', 'Eval2Device'):
            return self.kernel(e, name)
        r = Size.e_call(self, e)
        for x in e['a']:
            self.given(x, name)
        for i, x in enumerate(e['a']):
            y = strip(x)
            if y is not None and y['k'] == 'un' and y['op'] == '&':
                y = strip(y['e'])
            if y is not None and y['k'] == 'ref' and not self.reads_only(e, i):
                for k, (v, d) in list(self.memown.items()):
                    if d == y.get('d') and not (f.startswith('std::') and name == 'move'):
                        self.lose(v, 'given to %s' % name)
                if y.get('d') in self.ragown:
                    self.lose(self.ragown[y['d']], 'given to %s' % name)
        if e.get('o') is not None and self.memown and name not in ('back', 'front', 'size', 'Data', 'Dim', 'Context', 'at'):
            o = strip(e['o'])
            if o['k'] == 'ref':
                self.drop(o.get('d'))
        moves = f.startswith('std::') and name in ('move', 'forward')
        for i, x in enumerate(e['a']):
            self.quiet += 1
            v = self.ev(x)
            self.quiet -= 1
            b = self.own(v)
            if b and not moves:
                if self.reads_only(e, i):
                    self.read_by(b, v, name, e)
                elif name.startswith('RaggedShape') and '::' not in name:
                    self.read_by(b, v, name, e)
                    b.result = True
        for i, x in enumerate(e['a']):
            self.quiet += 1
            b = self.own(self.ev(x))
            self.quiet -= 1
            if b and not moves and not self.reads_only(e, i):
                b.lost('given to %s' % name)
        return r

    def read_by(self, a, v, name, e):
        """The array is read here: what it has by now."""
        a.used = True
        if not a.known or a.early or a.param or name in ('GetContext', 'IsCompatible'):
            return
        g = self.gap(a, v[1] if v[0] == 'arr' else None, 'ExclusiveSum' in name, bool(WHOLE.fullmatch(name)))
        if g:
            a.early = ('%s is not set when %s reads it' % (g, name), e)

    def given(self, x, name):
        """A lambda that is run elsewhere, or a pointer turned into another kind."""
        y = strip(x)
        if y is None:
            return
        if y['k'] == 'ref' and y.get('d') in self.lambdas:
            y = self.lambdas[y['d']]
        if y['k'] == 'lambda':
            for m in walk(y['b']):
                if m['k'] == 'ref':
                    self.lose(self.env.get(m.get('d')), 'written in a lambda given to %s' % name)
        elif y['k'] in ('cast', 'call', 'bin', 'ctor') :
            for m in walk(y):
                if m['k'] == 'cast' and '*' in str(m.get('t')) and 'const' not in str(m.get('t')):
                    for q in walk(m):
                        if q['k'] == 'ref':
                            self.lose(self.env.get(q.get('d')), 'given to %s' % name)

    def forget(self, l):
        x = strip(l)
        if x is not None and x['k'] == 'ref':
            self.lose(self.env.get(x['d']), 'its pointer moves')
        Size.forget(self, l)

    def either(self, a, b):
        r = Size.either(self, a, b)
        for x, y in ((a, b), (b, a)):
            if self.own(x) and not (r is not None and self.own(r) is self.own(x)):
                if self.merge_sure or y is None or y[0] == 'ptr' and y[1] is None:
                    return x
                self.lose(x, 'one of several')
        return r

    def kernel(self, e, name):
        self.quiet += 1
        n = [self.int(x) for x in e['a'][1:-1]]
        self.quiet -= 1
        self.path.append(('kern', None, n))
        r = Size.e_call(self, e)
        self.path.pop()
        return r

    def declare(self, v):
        Size.declare(self, v)
        if v.get('t', '').endswith(('&', '*')):
            self.refs.add(v['d'])
        if v.get('i') is not None and v.get('t', '').replace('const ', '') in ('int', 'long', 'bool'):
            self.defs[v['d']] = v['i']
        x = strip(v['i']) if v.get('i') is not None else None
        if x is not None and x['k'] == 'ctor' and len(x['a']) == 2 and str(x['t']).replace('const ', '').startswith('k2::Ragged<'):
            self.quiet += 1
            w = self.ev(x['a'][1])
            self.quiet -= 1
            if self.own(w):
                self.ragown[v['d']] = w
        if v.get('i') is not None and is_ptr(v.get('t', '')) and strip(v['i'])['k'] == 'null':
            self.env[v['d']] = ('ptr', None, {}, None, v.get('n') or '?')
        a = self.own(self.env.get(v['d']))
        if a and not a.name:
            a.name = v.get('n') or ''

    def keep(self, v, t, l):
        a = self.own(v)
        if a:
            if not a.name:
                a.name = text(l)
            if strip(l)['k'] == 'mem':
                a.lost('kept in a member')
        return Size.keep(self, v, t, l)

    def assign(self, l, v):
        a = self.own(v)
        if a and l is not None:
            if not a.name:
                a.name = text(l)
            if l['k'] == 'un':
                a.used = a.result = True
            if self.plain_member(l):
                self.memown[text(l)] = (v, self.root(l))
                a.result = a.used = True
                return
            if l['k'] == 'mem':
                a.lost('kept in a member')
        elif l is not None and l['k'] in ('mem', 'ref'):
            self.drop(self.root(l))
        return Size.assign(self, l, v)

    def root(self, l):
        for m in walk(l):
            if m['k'] == 'ref' and m.get('dk') != 'func':
                return m.get('d')
        return None

    def plain_member(self, l):
        """x.row_splits and v.back().row_splits of a local x or v."""
        if l['k'] != 'mem':
            return False
        if any(m['k'] == 'ref' and m.get('d') in self.refs for m in walk(l)):
            return False
        rs = [m for m in walk(l) if m['k'] in ('ref', 'this', 'idx', 'opcall', 'call')]
        return bool(rs) and all(m['k'] == 'ref' and m.get('dk') == 'local' or m['k'] == 'call' and shortname(m.get('f', '')) in ('back', 'front') for m in rs)

    def drop(self, d):
        for k in [k for k, (v, r) in self.memown.items() if r == d and d is not None]:
            self.memown.pop(k)

    # ---- writes
    def store(self, l, v):
        Size.store(self, l, v)
        l = strip(l)
        if l is None or l['k'] not in ('idx', 'opcall', 'un'):
            return
        self.quiet += 1
        p = self.ev(l['a'] if l['k'] == 'idx' else l['e'] if l['k'] == 'un' else l['a'][0])
        i = self.int(l['i']) if l['k'] == 'idx' else {} if l['k'] == 'un' else self.int(l['a'][1]) if len(l['a']) > 1 else None
        self.quiet -= 1
        a = self.own(p)
        if a is None:
            return
        if i is None:
            a.lost('written at a place that is not known')
            return
        I = self.norm(add(p[2] if p[0] == 'ptr' else {}, i))
        if a.first and not self.rmw:
            mine = [q for q in self.path[len(a.path):] if q[0] in ('loop', 'kern')]
            if any(q is r for q in mine for r in a.first[1]):
                a.first = False
        a.writes.append((I, list(self.path[len(a.path):]), l, dict((k, self.range[k]) for k in self.atoms(I) if k in self.range)))

    def e_un(self, e):
        x = strip(e['e'])
        if e['op'] == '&':
            self.quiet += 1
            v = self.ev(x['a'] if x['k'] == 'idx' else x['a'][0]) if x['k'] in ('idx', 'opcall') and x.get('a') is not None and (x['k'] == 'idx' or x['op'] == '[]') else None
            self.quiet -= 1
            self.lose(v, 'its address is taken')
        if e['op'] in ('++', '--'):
            self.rmw += 1
            r = Size.e_un(self, e)
            self.rmw -= 1
            return r
        return Size.e_un(self, e)

    def store_member(self, e):
        """p[i].field = v and the like."""
        l = strip(e['a'])
        while l is not None and l['k'] == 'mem':
            l = strip(l.get('o'))
        return l

    def touch(self, a, I, e):
        """An element is read here."""
        path = self.path[len(a.path):]
        if any(q[0] == 'if' and self.device(q) is False for q in path):
            return
        if a.known and not a.writes and a.first is None:
            a.first = (e, list(path), self.rmw)
        if a.known and I is not None and not self.in_loop(len(a.path)) and not any(q[0] == 'if' and self.device(q) is None and not q[4] for q in path):
            a.hosts.append((e, I, list(a.writes)))

    def access(self, p, i, e):
        a = self.own(p)
        if a and not self.quiet and id(e) not in self.lhss:
            self.touch(a, self.norm(add(p[2], i)) if i is not None and p[0] == 'ptr' else None, e)
        if a and not self.quiet and e is not self.lhs and not any(q[0] == 'if' and self.device(q) is None and not q[4] for q in self.path):
            I = self.norm(add(p[2], i)) if i is not None else None
            if I is not None and not any(x in self.loaded or x[0] in 'us' and x[1:].isdigit() for x in self.atoms(I)):
                a.read = True
        return Size.access(self, p, i, e)

    def e_bin(self, e):
        if e['op'] == '=':
            self.lhs = strip(e['a'])
            self.lhss.add(id(self.lhs))
        if e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            l = strip(e['a'])
            if e['op'] == '=' and l['k'] in ('idx', 'mem', 'opcall'):
                self.quiet += 1
                self.lose(self.ev(e['b']), 'kept elsewhere')
                self.quiet -= 1
            if l['k'] == 'mem':
                x = self.store_member(e)
                if x is not None and x['k'] == 'idx':
                    self.quiet += 1
                    a = self.own(self.ev(x['a']))
                    self.quiet -= 1
                    if a:
                        a.lost('written by parts')
        if e['op'].endswith('=') and e['op'] not in ('=', '==', '!=', '<=', '>='):
            self.rmw += 1
            r = Size.e_bin(self, e)
            self.rmw -= 1
            return r
        return Size.e_bin(self, e)

    def e_opcall(self, e):
        if e['op'] == '=':
            self.lhss.add(id(strip(e['a'][0])))
        if e['op'] == '[]' and not self.quiet and id(e) not in self.lhss:
            self.quiet += 1
            v, i = self.ev(e['a'][0]), self.ev(e['a'][1])
            self.quiet -= 1
            a = self.own(v)
            if a and v[0] == 'arr' and i is not None and i[0] == 'int':
                self.touch(a, self.norm(i[1]), e)
        if e['op'] in ('=', '+=', '-=', '|=', '&=', '*=') and len(e['a']) == 2:
            l = strip(e['a'][0])
            if l['k'] == 'idx' or l['k'] == 'opcall' and l['op'] == '[]':
                r = Size.e_opcall(self, e)
                self.store(l, None)
                return r
        if e['op'] == '=' and len(e['a']) == 2 and 'k2::Array' in e.get('f', ''):
            self.quiet += 1
            v = self.ev(e['a'][1])
            w = self.ev(e['a'][0])
            self.quiet -= 1
            a = self.own(w)
            t = strip(e['a'][1]).get('t')
            if a and (v is None or v[0] not in ('arr',)) and not ('Array' in str(t)):
                a.lost('filled')
        if e['op'] not in ('=', '[]', '()'):
            for a in e['a']:
                self.quiet += 1
                v = self.own(self.ev(a))
                self.quiet -= 1
                if v and e['op'] in ('<<', '>>') :
                    v.used = True
        return Size.e_opcall(self, e)

    # ---- paths
    def relation(self, c, pos):
        """(op, polynomial): what the condition says about loop indexes."""
        g = len(self.guards)
        Size.guard(self, c, pos)
        out = [x[:2] for x in self.guards[g:] if x[0] != 'opaque']
        opaque = any(x[0] == 'opaque' for x in self.guards[g:])
        del self.guards[g:]
        return out

    def sure(self, c):
        """Whether the condition is one of: a pointer is there; the list that
        holds an element is not empty."""
        c = strip(c)
        while c['k'] == 'un' and c['op'] == '!':
            c = strip(c['e'])
        t = c.get('t')
        if c['k'] == 'ref' and isinstance(t, str) and is_ptr(t):
            return True
        if c['k'] == 'bin' and c['op'] in ('==', '!=') and any(strip(c[x])['k'] == 'null' for x in 'ab'):
            return True
        if c['k'] == 'bin' and c['op'] in ('&&', '||'):
            return self.sure(c['a']) and self.sure(c['b'])
        x = self.expand(c)
        ix = {}
        for m in walk(x):
            if m['k'] == 'idx':
                ix.setdefault(text(m['a']), []).append(strip(m['i']))
        for b, js in ix.items():
            ts = [text(j) for j in js]
            for j in js:
                if j['k'] == 'idx' and ('(%s + 1)' % text(j) in ts):
                    return True
        return False

    def expand(self, e, depth=0):
        """The expression with local values put in."""
        if depth > 12:
            return e
        if isinstance(e, list):
            return [self.expand(y, depth + 1) for y in e]
        if not isinstance(e, dict):
            return e
        if e.get('k') == 'ref' and e.get('d') in self.defs and not is_ptr(str(e.get('t'))):
            return self.expand(strip(self.defs[e['d']]), depth + 1)
        if e.get('k') in ('cast', 'bool') and e.get('e') is not None:
            return self.expand(e['e'], depth + 1)
        return {k: self.expand(v, depth + 1) if isinstance(v, (dict, list)) and k != 't' else v for k, v in e.items()}

    def in_loop(self, upto=0):
        return any(p[0] in ('kern', 'loop') for p in self.path[upto:])

    def exits(self, n):
        """Whether control never comes back from this branch (a failure)."""
        for m in walk(n):
            if m['k'] == 'opcall' and fatal(m) or m['k'] == 'throw':
                return True
        return False

    def s_if(self, n):
        if n.get('init'):
            self.st(n['init'])
        key, side = cond_key(n['c'])
        self.pend = (n, key, side, self.relation(n['c'], True), self.relation(n['c'], False))
        sure = self.sure(n['c'])
        t, f = n['t'], n.get('f')
        n2 = dict(n)
        n2.pop('init', None)
        ft, ff = self.exits(t), f is not None and self.exits(f)
        rt, rf = self.pend[3], self.pend[4]
        n2['t'] = {'k': 'within', 'l': n['l'], 'b': t, 'sure': sure, 'p': None if ff else ('if', key, side, rt, sure)}
        n2['f'] = {'k': 'within', 'l': n['l'], 'b': f, 'sure': sure, 'p': None if ft else ('if', key, not side, rf, sure)} if f is not None else None
        Size.s_if(self, n2)

    def s_within(self, n):
        if n['p'] is not None:
            self.path.append(n['p'])
        g = len(self.path)
        self.st(n['b'])
        del self.path[g:]
        if n['p'] is not None:
            self.path.pop()
        self.merge_sure = n['sure']

    def leaves(self, n):
        if n is not None and n['k'] == 'within':
            n = n['b']
        return Size.leaves(self, n)

    def s_blk(self, n):
        g, p = len(self.guards), len(self.path)
        for x in n['b']:
            self.st(x)
            if x['k'] == 'if' and x.get('f') is None and self.leaves(x['t']):
                self.guard(x['c'], False)
                if self.in_loop() and not self.exits(x['t']):
                    key, side = cond_key(x['c'])
                    self.path.append(('if', key, not side, self.relation(x['c'], False), self.sure(x['c'])))
        del self.guards[g:]
        del self.path[p:]

    def e_cond(self, e):
        return Size.e_cond(self, e)

    def loop(self, n, m):
        self.path.append(('loop', n))
        m(self, n)
        self.path.pop()

    def s_for(self, n):
        self.st(n.get('i'))
        k = dict(n)
        k['i'] = None
        if (n.get('i') or {}).get('k') == 'decl':
            for v in n['i']['b']:
                pass
        iv = self.induction(n)
        self.path.append(('loop', self.n + 1 if iv else None))
        b = len(self.range)
        Size.s_for(self, dict(k, b=n['b']))
        self.path.pop()

    def s_while(self, n):
        self.loop(n, Size.s_while)

    def s_do(self, n):
        c = strip(n['c'])
        if c['k'] in ('int', 'boolean') and not c.get('v'):
            return Size.s_do(self, n)
        self.loop(n, Size.s_do)

    def s_range(self, n):
        self.refs.add(n['v'].get('d'))
        self.loop(n, Size.s_range)

    def s_switch(self, n):
        self.path.append(('if', 'switch %s' % n['l'], None, [], False))
        Size.s_switch(self, n)
        self.path.pop()

    def s_ret(self, n):
        if n.get('e') is not None:
            v = self.ev(n['e'])
            a = self.own(v)
            if a:
                a.used = a.returned = a.result = True
            if v is not None and v[0] == 'ren' and tuple(v[2]) in self.keeps:
                a = self.allocs[self.keeps[tuple(v[2])]]
                a.used = a.result = True

    # ---- the verdict
    def split(self, I, ranges):
        """I as a single index with its range and an offset: (atom, lo, hi) or a point."""
        ks = [a for a in self.atoms(I) if a in ranges or a in self.range]
        if any(a in self.loaded for a in ks):
            return None
        if not ks:
            return (None, I, add(I, ONE))
        if len(ks) == 1:
            k = ks[0]
            if I.get((k,)) != 1 or any(k in m and m != (k,) for m in I):
                return None
            lo, hi = ranges.get(k) or self.range[k]
            if lo is None or hi is None:
                return None
            c = add(I, {(k,): 1}, -1)
            return (k, self.norm(add(lo, c)), self.norm(add(hi, c)))
        if len(ks) == 2:
            # row-major: n * i + j with j below n
            for i, j in (ks, ks[::-1]):
                if I.get((j,)) == 1 and not any(j in m and m != (j,) for m in I):
                    lo, hi = ranges.get(j) or self.range[j]
                    rest = add(I, {(j,): 1}, -1)
                    ro, rh = ranges.get(i) or self.range[i]
                    if lo == {} and hi is not None and ro == {} and rh is not None and self.norm(add(rest, mul({(i,): 1}, hi), -1)) == {}:
                        return ('flat', {}, self.norm(mul(rh, hi)))
        return None

    def narrow(self, w):
        """(lo, hi, conditions) of a write; None where it is not known."""
        I, path, l, ranges = w
        s = self.split(I, ranges)
        if s is None:
            return None
        k, lo, hi = s
        conds = []
        for p in path:
            if p[0] == 'loop':
                # a loop that is not over the index may run no times
                mine = p[1] is not None and any(self.is_atom(a, p[1]) for a in self.atoms(I))
                if not mine:
                    if p[1] is None:
                        return None
                    a = 'k%d' % p[1]
                    r = self.range.get(a)
                    if r is None or r[0] is None or r[1] is None:
                        return None
                    d = self.norm(add(r[1], r[0], -1))
                    if not (set(d) <= {()} and d.get((), 0) > 0):
                        return None
            elif p[0] == 'if':
                dev = self.device(p)
                if dev is False:
                    return False
                if dev is None:
                    conds.append(p)
        rest = []
        for p in conds:
            if self.certain(p):
                continue
            done = False
            if k not in (None, 'flat') and len(p[3]) >= 1:
                new = (lo, hi)
                for op, d in p[3]:
                    d = self.norm(d)
                    c = d.get((k,))
                    if self.data(d, k) or c not in (1, -1) or any(k in m and m != (k,) for m in d) or new is None:
                        new = None
                        break
                    # where the index is, in terms of the position written
                    off = add(I, {(k,): 1}, -1)
                    z = add(d, {(k,): c}, -1)              # c*k + z op 0
                    e = add(mul(num(-c), z), off)          # k = -c*z
                    if op == '==':
                        new = (e, add(e, ONE))
                    elif op == '<' and c == 1:
                        new = (new[0], e)                  # k < -z
                    elif op == '<' and c == -1:
                        new = (add(e, ONE), new[1])        # k > z
                    elif op == '!=':
                        if self.norm(add(e, new[0], -1)) == {}:
                            new = (add(new[0], ONE), new[1])
                        elif self.norm(add(add(e, ONE), new[1], -1)) == {}:
                            new = (new[0], e)
                        else:
                            new = None
                    else:
                        new = None
                if new is not None:
                    lo, hi = self.norm(new[0]), self.norm(new[1])
                    done = True
            if not done:
                rest.append(p)
        # a kernel over something else, one of whose indexes does the writing
        return lo, hi, [(p[1], p[2], p[3]) for p in rest]

    def device(self, p):
        """True: on the CPU; False: on another device only; None: not about devices."""
        if 'GetDeviceType()' not in p[1]:
            return None
        for t, cpu in (('== kCpu', True), ('== kCuda', False)):
            if p[1].endswith(t):
                return p[2] == cpu
        return None

    def data(self, p, k):
        """Whether p depends on what was read after the index k was there."""
        return any(a in self.loaded or a[0] in 'us' and a[1:].isdigit() and int(a[1:]) > int(k[1:]) for a in self.atoms(p))

    def certain(self, p):
        """Conditions that hold wherever the array is there to be written."""
        key, side = p[1], p[2]
        return p[4] if len(p) > 4 else False

    def by_index(self, c):
        """Whether a condition is on the loop or kernel index alone."""
        return bool(c[2]) and all(not any(a in self.loaded or a[0] in 'us' and a[1:].isdigit() for a in self.atoms(self.norm(d))) and any(a in self.range for a in self.atoms(self.norm(d))) for op, d in c[2])

    def is_atom(self, a, n):
        return a == 'k%d' % n

    def covers(self, paths, depth=0):
        paths = [p for p in paths]
        if any(not p for p in paths):
            return True
        if not paths or depth > 12:
            return False
        key = paths[0][0][0]
        if key.startswith('switch'):
            return True
        for side in (True, False):
            sub = [[c for c in p if c[0] != key] for p in paths if all(c[0] != key or c[1] == side for c in p)]
            if not self.covers(sub, depth + 1):
                return False
        return True

    def seen_out(self, a):
        return a.used or a.result and (a.name or any(self.own(v) is a for v in self.ragown.values()))

    def flag(self, a):
        """A read of one element where each write so far may not have been made."""
        S = self.norm(a.S)
        if not set(S) <= {()}:
            return None
        for e, I, ws in a.hosts:
            if not set(I) <= {()} or not ws:
                continue
            ok = True
            for w in ws:
                r = self.narrow(w)
                if r is False:
                    continue
                if r is None:
                    ok = any(p[0] == 'if' and not self.certain(p) for p in w[1]) and not any(a in self.atoms(w[0]) for a in self.range)
                    if not ok:
                        break
                    continue
                lo, hi, conds = r
                if not conds or any(self.by_index(c) for c in conds) or not (set(lo) <= {()} and set(hi) <= {()}):
                    ok = False
                    break
            if ok and not self.covers([[c[:2] for c in r[2]] for r in map(self.narrow, ws) if r]):
                return e, ws[0]
        return None

    def none(self, a):
        """The count that leaves all of the array unwritten when it is zero, though it has elements."""
        S = self.norm(a.S)
        if not a.writes or a.returned or S.get((), 0) < 1 or not (a.known or a.why.startswith('given to RaggedShape')):
            return None
        # filled whole by something else, or handed on
        for m, c in S.items():
            if len(m) != 1:
                continue
            x = m[0]
            at0 = {k: v for k, v in S.items() if x not in k}
            if set(at0) > {()} or at0.get((), 0) < 1:
                continue
            ok = True
            for I, path, l, ranges in a.writes:
                runs = False
                for p in a.path + path:
                    if p[0] == 'if' and any(x in self.atoms(self.norm(d)) for op, d in p[3]):
                        runs = None
                        break
                    if p[0] == 'if' and not p[3]:
                        pass
                    ns = []
                    if p[0] == 'kern':
                        ns = [n for n in p[2] if n is not None]
                    elif p[0] == 'loop' and isinstance(p[1], int):
                        r = self.range.get('k%d' % p[1])
                        if r and r[0] is not None and r[1] is not None:
                            ns = [self.norm(add(r[1], r[0], -1))]
                    for n in ns:
                        n = self.norm(n)
                        if n and all(x in k for k in n):
                            runs = True
                if not runs:
                    ok = False
                    break
            if ok:
                return x
        return None

    def gap(self, a, S=None, but_last=False, whole=False):
        """What of the array is not written: None if nothing, or not known."""
        if a.early:
            return a.early[0]
        S = self.norm(a.S if S is None else S)
        groups = {}
        for w in a.writes:
            r = self.narrow(w)
            if r is None:
                return None
            if r is False:
                continue
            lo, hi, conds = r
            groups.setdefault((tuple(sorted(lo.items())), tuple(sorted(hi.items()))), []).append(conds)
        full, part = [], []
        for (lo, hi), ps in groups.items():
            (full if self.covers(ps) else part).append((dict(lo), dict(hi), ps))
        cur = {}
        used = set()
        for _ in range(len(full) + 1):
            d = self.norm(add(S, cur, -1))
            if set(d) <= {()} and d.get((), 0) <= 0:
                return None
            nxt = None
            for j, (lo, hi, ps) in enumerate(full):
                if j in used:
                    continue
                x = self.norm(add(cur, lo, -1))
                if set(x) <= {()} and x.get((), 0) >= 0:
                    nxt = j
                    y = self.norm(add(hi, cur, -1))
                    used.add(j)
                    if set(y) <= {()} and y.get((), 0) <= 0:
                        break
                    cur = hi
                    break
            if nxt is None:
                break
        d = self.norm(add(S, cur, -1))
        if set(d) <= {()} and d.get((), 0) <= 0:
            return None
        left = [f for j, f in enumerate(full) if j not in used]
        if not part and not left:
            if set(d) <= {()} and d.get((), 0) > 0:
                if (a.returned or but_last) and d == ONE and cur != {}:
                    return None         # left for the caller's sum, or for this one
                if not a.writes and not self.seen_out(a):
                    return None
                return 'its last %s element%s' % (d[()], '' if d[()] == 1 else 's') if cur != {} else 'any of its %s elements' % d[()]
            if cur == {}:
                return 'any of its elements' if not a.writes and self.seen_out(a) else None
            return None
        if left:
            # a gap of a known size before what is written next
            gaps = []
            for lo, hi, ps in left:
                x = self.norm(add(lo, cur, -1))
                gaps.append(x.get((), 0) if set(x) <= {()} else None)
            if None not in gaps and not part:
                g = min(gaps)
                if g > 0:
                    return 'the %s element%s from %s on' % (g, '' if g == 1 else 's', self.say(cur))
            return None
        # only conditional writes for what is left
        if not whole and not a.result and not a.read and not any(self.by_index(c) for f in part for p in f[2] for c in p):
            return None
        for lo, hi, ps in part:
            x = self.norm(add(lo, cur, -1))
            if set(x) <= {()} and x.get((), 0) <= 0:
                return 'elements of [%s, %s) when not (%s)' % (self.say(lo) if lo else '0', self.say(hi), ' | '.join(' & '.join(('' if c[1] else 'not ') + c[0] for c in p) for p in ps)[:150])
        return None

    def lists(self, a):
        """Elements of a, one per list, that only the elements of the list write: a list may have none."""
        if a.returned or not (a.known or a.why.startswith('given to RaggedShape')):
            return None
        of = {}
        for (sp, I), v in self.loads.items():
            if sp[0] == 'ids':
                x = list(v)[0][0]
                i = dict(I)
                ks = [k for k in self.atoms(i) if k in self.range]
                if len(ks) == 1 and i == {(ks[0],): 1} and self.range[ks[0]][0] == {} and self.range[ks[0]][1] is not None \
                        and self.norm(add(self.range[ks[0]][1], self.tot(sp[1], sp[2]), -1)) == {}:
                    of[x] = sp
        S = self.norm(a.S)
        mine, rest = {}, []
        for w in a.writes:
            I = w[0]
            xs = [x for x in self.atoms(I) if x in of]
            if len(xs) == 1 and I.get((xs[0],)) == 1 and not any(xs[0] in m and m != (xs[0],) for m in I):
                off = self.norm(add(I, {(xs[0],): 1}, -1))
                if not self.atoms(off) & (self.loaded | set(self.range)):
                    n = self.norm(self.tot(of[xs[0]][1], of[xs[0]][2] - 1))
                    mine.setdefault((tuple(sorted(off.items())), tuple(sorted(n.items()))), []).append(w)
                    continue
            rest.append(w)
        if len(mine) != 1:
            return None
        (off, n), ws = list(mine.items())[0]
        off, end = dict(off), self.norm(add(dict(off), dict(n)))
        if any(p[0] == 'if' and self.device(p) is False for p in ws[0][1]):
            return None
        spans = []
        for w in rest:
            r = self.narrow(w)
            if r is None:
                return None
            if r is not False:
                spans.append((r[0], r[1]))
        for lo, hi in spans:
            x, y = self.norm(add(off, hi, -1)), self.norm(add(lo, end, -1))
            if not (set(x) <= {()} and x.get((), 0) >= 0 or set(y) <= {()} and y.get((), 0) >= 0):
                return None
        # all of the array is accounted for: what this writes is needed
        cur, todo = {}, spans + [(off, end)]
        while True:
            d = self.norm(add(S, cur, -1))
            if set(d) <= {()} and d.get((), 0) <= 0:
                return ws[0]
            nxt = next(((lo, hi) for lo, hi in todo if self.norm(add(lo, cur, -1)) == {}), None)
            if nxt is None:
                return None
            todo = [t for t in todo if self.norm(add(t[0], nxt[0], -1)) != {}]
            cur = nxt[1]
