"""Memory handed to a function through a pointer to be filled there.

The caller makes an array or tensor without values and passes the pointer to
its data; whether the elements get values is then up to the function. Every
way through the bodies of the loops and kernels that write through the pointer
is followed: an iteration that comes to its end without having written, while
another one writes, leaves an element with whatever its memory held.
"""
import re

from cxx import walk, shortname, text
from cxxpath import strip, fatal, is_ptr
from cxxfill import cond_key

MAX = 200
GETS = ('Data', 'Dim', 'Stride', 'IsContiguous', 'GetDtype', 'Context', 'NumAxes', 'NumElements', 'ElementSize', 'GetShape', 'Dims', 'ElemStride0', 'Dim0', 'Dim1')
FRESH = re.compile(r'(const )?k2::(Array1<.*>|Array2<.*>|Tensor)$')
FILLS = ('memset', 'memcpy', 'memmove', 'copy', 'copy_n', 'fill', 'fill_n', 'iota', 'cudaMemcpy', 'MemoryCopy')
ADDS = ('AtomicAdd', 'atomicAdd', 'AtomicDecAndCompareZero', 'fetch_add')


def is_fresh(x):
    """A container made with a size but without values."""
    if x is None or x['k'] != 'ctor' or not FRESH.match(str(x['t'])) or x.get('copy') or x.get('move'):
        return False
    a = [y for y in x['a'] if y['k'] != 'dflt']
    if len(a) < 2 or any('Region' in str(y.get('t')) for y in map(strip, a)):
        return False
    if 'Array1' in str(x['t']):
        y = strip(a[1])
        return len(a) == 2 and y['k'] != 'list' and re.match(r'(const )?(int|long|unsigned)', str(a[1].get('t') or y.get('t') or 'int')) is not None
    return True


def handed(f):
    """(call, position, variable) for each pointer to fresh memory passed on."""
    fresh, seen = {}, set()
    for n in walk(f.body):
        if n['k'] == 'decl' and isinstance(n.get('b'), list):
            for v in n['b']:
                if v.get('i') is not None and is_fresh(strip(v['i'])):
                    fresh[v['d']] = v
    if not fresh:
        return
    reads = set()
    for n in walk(f.body):
        if n['k'] == 'call' and n.get('o') is not None and shortname(n.get('f', '')) in GETS:
            for m in walk(n['o']):
                reads.add(id(m))
    other = {}
    for n in walk(f.body):
        if n['k'] == 'ref' and n.get('d') in fresh and id(n) not in reads:
            other.setdefault(n['d'], n.get('l') or 0)
    order = {}
    for i, n in enumerate(walk(f.body)):
        order[id(n)] = i
    first = {}
    for n in walk(f.body):
        if n['k'] == 'ref' and n.get('d') in fresh and id(n) not in reads:
            first.setdefault(n['d'], order[id(n)])
    ptrs = {}
    for n in walk(f.body):
        if n['k'] != 'call' or not n.get('f') or n['f'].startswith('std::') or n['f'].endswith('::operator()'):
            continue
        for i, a in enumerate(n['a']):
            y = strip(a)
            if y is None or y['k'] != 'call' or shortname(y.get('f', '')) != 'Data' or y.get('o') is None:
                continue
            o = strip(y['o'])
            d = o.get('d') if o is not None and o['k'] == 'ref' else None
            if d not in fresh or first.get(d, 1 << 60) < order[id(n)]:
                continue
            # its pointer was taken before: it may have been filled through that
            if any(order[id(m)] < order[id(n)] and shortname(m.get('f', '')) == 'Data' and strip(m['o']).get('d') == d and not same_call(f, m, n)
                   for m in walk(f.body) if m['k'] == 'call' and m.get('o') is not None and strip(m['o']) is not None and id(m) in order):
                continue
            yield n, i, fresh[d]


def same_call(f, m, n):
    """m is an argument of n, or of the same call of the function in another branch of a switch over types."""
    return any(x is m for a in n['a'] for x in walk(a)) or any(c['k'] == 'call' and c.get('f') == n.get('f') and any(x is m for a in c['a'] for x in walk(a)) for c in walk(f.body))


class Filler:
    """What a function does with the memory behind a pointer parameter."""

    def __init__(self, prog, f, d, depth=0):
        self.prog, self.f, self.depth = prog, f, depth
        self.mine = {d}
        self.lams = {}
        self.local = {}
        self.known = True
        self.left = None
        self.units = 0
        for _ in range(3):
            for n in walk(f.body):
                if n['k'] == 'decl' and isinstance(n.get('b'), list):
                    for v in n['b']:
                        i = strip(v['i']) if v.get('i') is not None else None
                        if i is None:
                            continue
                        if i['k'] == 'lambda':
                            self.lams[v['d']] = i
                        else:
                            self.local[v['d']] = i
                            if is_ptr(v['t']) and self.points(i):
                                self.mine.add(v['d'])

    def points(self, e):
        e = strip(e)
        if e is None:
            return False
        if e['k'] == 'ref':
            return e.get('d') in self.mine
        if e['k'] == 'bin' and e['op'] in ('+', '-'):
            return self.points(e['a']) or self.points(e['b'])
        if e['k'] == 'un' and e['op'] == '&':
            x = strip(e['e'])
            return x['k'] == 'idx' and self.points(x['a'])
        return False

    # a state is (filled, where an iteration may have left an element, conditions)
    def run(self):
        outs, rets = self.flow([self.f.body], {(False, None, frozenset())})
        for filled, site, cs in outs | rets:
            if site is not None and not filled and self.known:
                self.left = site
        return self.left

    def lookup(self, cs, key):
        for k, v in cs:
            if k == key:
                return v
        return None

    def flow(self, stmts, states):
        rets = set()
        for s in stmts:
            if s is None:
                continue
            states, r = self.stmt(s, states)
            rets |= r
            if len(states) > MAX:
                self.known = False
                return set(), rets
        return states, rets

    def stmt(self, s, states):
        k = s['k']
        if not states:
            return states, set()
        if k == 'blk':
            return self.flow(s['b'], states)
        if k == 'do':
            c = strip(s['c'])
            if c['k'] in ('int', 'boolean') and not c.get('v'):
                return self.stmt(s['b'], states)
            return self.cycle([s['b']], states, s), set()
        if k in ('for', 'range', 'while'):
            if k == 'for' and s.get('i') is not None:
                states, _ = self.stmt(s['i'], states)
            return self.cycle([s['b']], states, s), set()
        if k == 'if':
            if s.get('init'):
                states, _ = self.stmt(s['init'], states)
            return self.branch(s['c'], s['t'], s.get('f'), states)
        if k == 'ret':
            if s.get('e') is not None:
                states = self.expr(s['e'], states)
            return set(), states
        if k == 'throw':
            return set(), set()
        if k in ('brk', 'break', 'cont', 'continue', 'goto'):
            return set(), set(states)
        if k == 'switch':
            r = set()
            out, r2 = self.stmt(s['b'], states) if isinstance(s.get('b'), dict) else (states, set())
            if any(self.touches(x) for x in [s.get('b')]):
                self.known = False
            return states, r2
        if k == 'decl':
            for v in s['b']:
                i = strip(v['i']) if v.get('i') is not None else None
                if i is not None and i['k'] != 'lambda':
                    states = self.expr(i, states)
            return states, set()
        if k in ('nop', 'static_assert'):
            return states, set()
        if k in ('try', 'catch', 'label', 'case', 'default'):
            if self.touches(s):
                self.known = False
            return states, set()
        return self.expr(s, states), set()

    def touches(self, n):
        return any(m['k'] == 'ref' and (m.get('d') in self.mine or m.get('d') in self.lams) for m in walk(n)) if n is not None else False

    def branch(self, c, t, f, states):
        if strip(c)['k'] == 'boolean' or strip(c).get('n', '').startswith('std::integral_constant<bool, '):
            v = strip(c).get('v') if strip(c)['k'] == 'boolean' else 'true' in strip(c)['n']
            x = t if v else f
            return self.stmt(x, states) if x is not None else (states, set())
        states = self.expr(c, states)
        key, side = cond_key(c)
        dev = 'GetDeviceType' in key
        outs, rets = set(), set()
        for want, b in ((True, t), (False, f)):
            s = set()
            for filled, site, cs in states:
                v = self.lookup(cs, key)
                if v is None or v == (want == side):
                    s.add((filled, site, cs | {(key, want == side)}))
            if not s:
                continue
            if b is None:
                outs |= s
            else:
                o, r = self.stmt(b, s)
                outs |= o
                rets |= r
        return outs, rets

    def cycle(self, body, states, n, index=()):
        """A loop over elements, or the body of a kernel."""
        if not any(self.touches(b) for b in body):
            return states
        self.units += 1
        out = set()
        for filled, site, cs in states:
            o, r = self.flow(body, {(False, None, cs)})
            ends = o | r
            if not ends:
                continue
            if all(e[0] for e in ends):
                out.add((True, site, cs))
            elif any(e[0] for e in ends):
                bad = [e for e in ends if not e[0]]
                by_data = [e for e in bad if any(self.of_data(k) for k, v in e[2] - cs)]
                if len(by_data) == len(bad):
                    out.add((filled, site or self.site(n, bad[0][2] - cs), cs))
                else:
                    self.known = False
                    out.add((filled, site, cs))
            else:
                sites = [e[1] for e in ends if e[1] is not None]
                out.add((filled, site or (sites[0] if sites else None), cs))
        return out

    def site(self, n, cs):
        return n.get('l') or self.f.line, ' and '.join(sorted(('' if v else 'not ') + k for k, v in cs if self.of_data(k)))[:120]

    def of_data(self, key):
        """Whether the condition is on what was read from memory."""
        names = set(re.findall(r'[A-Za-z_]\w*', key))
        if '[' in key:
            return True
        for d, i in self.local.items():
            if self.names.get(d) in names and self.loaded(i):
                return True
        return False

    @property
    def names(self):
        r = self.__dict__.get('_names')
        if r is None:
            r = self._names = {}
            for n in walk(self.f.body):
                if n['k'] == 'decl' and isinstance(n.get('b'), list):
                    for v in n['b']:
                        r[v['d']] = v.get('n')
        return r

    def loaded(self, e, depth=0):
        for m in walk(e):
            if m['k'] == 'idx' or m['k'] == 'un' and m['op'] == '*':
                return True
            if m['k'] == 'ref' and m.get('d') in self.local and depth < 6 and self.loaded(self.local[m['d']], depth + 1):
                return True
        return False

    def fill(self, states):
        return {(True, site, cs) for filled, site, cs in states}

    def expr(self, e, states):
        e = strip(e)
        if e is None or not states:
            return states
        k = e['k']
        if k == 'cond':
            if fatal(e['f']) or fatal(e['t']):
                return self.expr(e['c'], states)
            if self.touches(e['t']) or self.touches(e['f']):
                o, r = self.branch(e['c'], e['t'], e['f'], states)
                return o | r
            return self.expr(e['c'], states)
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            states = self.expr(e['b'], states)
            l = strip(e['a'])
            if l['k'] == 'ref' and l.get('d') in self.mine:
                self.known = self.known and e['op'] != '='
                return states
            hit = l['k'] == 'idx' and self.points(l['a']) or l['k'] == 'un' and l['op'] == '*' and self.moved(l['e'])
            if hit and e['op'] == '=':
                return self.fill(states)
            if hit:
                return self.adds(states, e)
            if l['k'] == 'mem' and self.touches(l):
                return self.fill(states)
            return states
        if k == 'opcall' and e['op'] == '=':
            l = strip(e['a'][0])
            states = self.expr(e['a'][1], states)
            if l['k'] == 'idx' and self.points(l['a']) or l['k'] == 'un' and l['op'] == '*' and self.moved(l['e']):
                return self.fill(states)
            return states
        if k == 'opcall' and e['op'] == '()' or k == 'call' and shortname(e.get('f', '')) == 'operator()':
            o = strip(e.get('o') or e['a'][0])
            if o['k'] == 'ref' and o.get('d') in self.lams:
                out, r = self.flow([self.lams[o['d']]['b']], states)
                return out | r
        if k == 'call':
            name = shortname(e.get('f', ''))
            if name in ('EvalDevice', 'Eval2Device'):
                l = strip(e['a'][-1])
                l = self.lams.get(l.get('d')) if l['k'] == 'ref' else l
                if l is None or l['k'] != 'lambda':
                    if self.touches(e):
                        self.known = False
                    return states
                return self.cycle([l['b']], states, e)
            given = [i for i, a in enumerate(e['a']) if self.points(a)]
            for a in e['a']:
                if not self.points(a):
                    states = self.expr(a, states)
            if not given:
                if any(self.touches(a) and strip(a)['k'] in ('lambda', 'ref', 'ctor') for a in e['a']):
                    self.known = False
                return states
            if name in FILLS:
                return self.fill(states) if 0 in given or name in ('copy', 'copy_n') and len(e['a']) - 1 in given else states
            if name in ADDS:
                return self.adds(states, e)
            gs = [g for g in self.prog.by_name.get(e['f'], ()) if g.body is not None and not g.dep and len(g.params) == len(e['a'])]
            if not gs or self.depth > 3:
                self.known = False
                return states
            g = gs[0]
            for i in given:
                if i < len(g.params) and is_ptr(g.params[i]['t']) and 'const' not in g.params[i]['t'].split('*')[0]:
                    w = Filler(self.prog, g, g.params[i]['d'], self.depth + 1)
                    o, r = w.flow([g.body], {(False, None, frozenset())})
                    if not w.known:
                        self.known = False
                        return states
                    ends = o | r
                    if ends and all(x[0] for x in ends):
                        states = self.fill(states)
                    elif any(x[0] or x[1] for x in ends):
                        self.known = False
            return states
        if k == 'lambda':
            return states
        for m in e.values():
            for x in (m if isinstance(m, list) else [m]):
                if isinstance(x, dict) and 'k' in x:
                    states = self.expr(x, states)
        return states

    def moved(self, e):
        e = strip(e)
        if e['k'] == 'un' and e['op'] in ('++', '--'):
            return self.points(e['e'])
        return self.points(e)

    def adds(self, states, e):
        """Added to what is there: it has to have a value."""
        return {(filled, site if filled or site else (e.get('l') or self.f.line, 'added to'), cs) for filled, site, cs in states}


def given_unfilled(prog, f):
    """(call, variable, function, site) for each pointer whose memory stays without values; the number looked at."""
    done = {}
    for call, i, v in handed(f):
        gs = [g for g in prog.by_name.get(call['f'], ()) if g.body is not None and not g.dep and len(g.params) >= len(call['a'])]
        if not gs:
            continue
        g = gs[0]
        if i >= len(g.params):
            continue
        t = g.params[i]['t']
        if not is_ptr(t) or t.strip().startswith('const '):
            continue
        key = (call['f'], i, v['d'])
        if key in done:
            continue
        w = Filler(prog, g, g.params[i]['d'])
        w.run()
        done[key] = True
        yield call, v, g, g.params[i]['n'], w.left if w.known else None, w.known and w.units > 0


def bare(e):
    """The variable an expression is, copied or moved."""
    e = strip(e)
    while e is not None and (e['k'] == 'ctor' and (e.get('copy') or e.get('move')) and len(e['a']) == 1 or e['k'] == 'call' and e.get('f') == 'std::move'):
        e = strip(e['a'][0])
    return e


EMPTY = re.compile(r'(?<![\w.])0(?![\w.])|< 1$|\bnullptr\b|empty\(\)|GetDeviceType')


class Use(Filler):
    """Whether a container made without values is given any on each way to the return."""

    def __init__(self, prog, f, v):
        Filler.__init__(self, prog, f, v['d'])
        self.var = v['d']
        self.mine = {v['d']}
        self.gets = set()
        self.rets = []
        for n in walk(f.body):
            if n['k'] == 'call' and n.get('o') is not None and shortname(n.get('f', '')) in GETS and shortname(n['f']) != 'Data':
                for m in walk(n['o']):
                    self.gets.add(id(m))

    def touches(self, n):
        return any(m['k'] == 'ref' and m.get('d') == self.var and id(m) not in self.gets for m in walk(n)) if n is not None else False

    def cycle(self, body, states, n, index=()):
        return self.fill(states) if any(self.touches(b) for b in body) else states

    def branch(self, c, t, f, states):
        if not self.touches(t) and not self.touches(f) and not any(m['k'] in ('ret', 'throw') for x in (t, f) if x is not None for m in walk(x)) and not (t is not None and fatal(t)):
            return self.expr(c, states), set()
        return Filler.branch(self, c, t, f, states)

    def expr(self, e, states):
        if e is None or not states:
            return states
        if strip(e)['k'] == 'cond' and (fatal(strip(e)['f']) or fatal(strip(e)['t'])):
            return states
        return self.fill(states) if self.touches(e) else states

    def stmt(self, s, states):
        if s['k'] == 'ret':
            x = bare(s['e']) if s.get('e') is not None else None
            if x is not None and x['k'] == 'ref' and x.get('d') == self.var:
                self.rets += [(s, z) for z in states]
            elif s.get('e') is not None:
                self.rets += [(s, (True, None, z[2])) for z in states]
            return set(), states
        if s['k'] == 'decl':
            for v in s['b']:
                if v['d'] == self.var:
                    states = {(False, None, frozenset(c for c in z[2])) for z in states}
                elif v.get('i') is not None and self.touches(v['i']):
                    states = self.fill(states)
            return states, set()
        if s['k'] not in ('blk', 'if', 'for', 'range', 'while', 'do', 'throw') and self.touches(s):
            return self.fill(states), set()
        if s['k'] == 'if' and fatal(s['t']) and s.get('f') is None:
            return states, set()
        return Filler.stmt(self, s, states)

    def unset(self):
        """(return, condition) where it comes back without anything done to it."""
        self.flow([self.f.body], {(True, None, frozenset())})
        if not self.known or not any(z[0] for s, z in self.rets):
            return None
        yes = [z[2] for s, z in self.rets if z[0]]
        for s, z in self.rets:
            if z[0]:
                continue
            cs = {(k, v) for k, v in z[2] if not all((k, v) in y for y in yes)}
            if cs and not any(EMPTY.search(k) for k, v in cs):
                return s, ' and '.join(sorted(('' if v else 'not ') + k for k, v in cs))[:120]
        return None


def returned_unset(prog, f):
    for n in walk(f.body):
        if n['k'] == 'decl' and isinstance(n.get('b'), list):
            for v in n['b']:
                if v.get('i') is None or not is_fresh(strip(v['i'])):
                    continue
                if not any(m['k'] == 'ret' and m.get('e') is not None and bare(m['e'])['k'] == 'ref' and bare(m['e']).get('d') == v['d'] for m in walk(f.body)):
                    continue
                yield v, Use(prog, f, v).unset()
