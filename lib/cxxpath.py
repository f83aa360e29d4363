"""Path-sensitive walk over one C++ function: which pointers are null, which
outputs have been set.

A state is a frozenset of (key, value): ('n', decl) nullness of a pointer
variable, ('b', decl) a bool variable, ('c', text) a condition over variables
that never change, ('s', decl) an output that has been written.
"""
from cxx import walk, text, shortname

MAX = 96
STD_MUT = {'clear', 'resize', 'push_back', 'emplace_back', 'swap', 'assign', 'insert', 'reserve', 'emplace', 'pop_back', 'reset', 'append'}


class TooMany(Exception):
    pass


def strip(e):
    while e is not None and e.get('k') in ('cast', 'bool', 'dflt') and e.get('e') is not None:
        e = e['e']
    if e is not None and e.get('k') == 'ctor' and e.get('copy') and len(e['a']) == 1:
        return strip(e['a'][0])
    return e


def is_ptr(t):
    if not isinstance(t, str):
        return False
    return t.rstrip().endswith('*') or t.rstrip().endswith('*const') or t.rstrip().endswith('* const')


def fatal(e):
    """Does evaluating e end in the fatal logger (failed K2_CHECK)?"""
    for n in walk(e):
        if n['k'] == 'ctor' and n['t'].endswith('internal::Logger'):
            return any(m.get('n', '').endswith('FATAL') for a in n['a'] for m in walk(a))
    return False


class Walker:
    def __init__(self, prog, fn, summary=None):
        self.prog, self.fn, self.summary = prog, fn, summary
        self.deref_null = []      # (var decl, var name, node, how)
        self.reads = []           # outputs read before written
        self.rets = []            # (state, node)
        self.direct = set()      # ... by an assignment in this function
        self.whole = set()        # params assigned as a whole on some path
        self.elem = set()
        self.depth = 0
        self.track = set()
        self.lamdepth = 0
        self.buffers = False
        self.lambdas = {}        # local lambda: run where it is used
        self.refs = {}           # reference to the dereferenced pointer: decl -> pointer decl
        # variables assigned after their declaration
        self.mutated = set()
        cnt = {}
        for n in walk(fn.body):
            if n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                r = strip(n['a'])
                if r and r['k'] == 'ref':
                    self.mutated.add(r['d'])
            elif n['k'] == 'un' and n['op'] in ('++', '--', '&'):
                r = strip(n['e'])
                if r and r['k'] == 'ref':
                    self.mutated.add(r['d'])
            elif n['k'] == 'opcall' and n['op'] in ('=', '+=', '-=', '++', '--', '>>'):
                r = strip(n['a'][0])
                if r and r['k'] == 'ref':
                    self.mutated.add(r['d'])
            elif n['k'] in ('if', 'cond', 'while'):
                t = text(n['c'])
                cnt[t] = cnt.get(t, 0) + 1
                for m in walk(n['c']):
                    if m['k'] in ('bin', 'ref', 'call'):
                        t = text(m)
                        cnt[t] = cnt.get(t, 0) + 1
        self.cnt = cnt
        self.params = set(p['d'] for p in fn.params)
        self.counted = set(p['d'] for p in fn.params if is_ptr(p['t']) and self.array_of(p['d']))

    def array_of(self, d):
        """A parameter only ever indexed with a variable and handed on: an
        array whose length another parameter gives, which may be zero."""
        idx = False
        other = 0
        for n in walk(self.fn.body):
            if n['k'] == 'idx' and self.var(n['a']) == d:
                if strip(n['i'])['k'] == 'int':
                    return False
                idx = True
            elif n['k'] == 'un' and n['op'] == '*' and self.var(n['e']) == d or n['k'] in ('mem', 'call') and n.get('arrow') and self.var(n.get('o')) == d:
                return False
            elif n['k'] == 'bin' and n['op'] in ('==', '!=') and d in (self.var(n['a']), self.var(n['b'])) or n['k'] in ('bool',) and self.var(n['e']) == d:
                return False
        return idx and any(p['t'] in ('int', 'int32_t', 'unsigned long', 'long', 'size_t', 'int64_t') for p in self.fn.params)

    # ---- states
    @staticmethod
    def get(S, key):
        for k, v in S:
            if k == key:
                return v
        return None

    @staticmethod
    def put(S, key, v):
        S = frozenset(x for x in S if x[0] != key)
        return S if v is None else S | {(key, v)}

    def cap(self, ss):
        ss = list(dict.fromkeys(ss))
        if len(ss) > MAX:
            # forget the plain conditions
            ss = list(dict.fromkeys(frozenset(x for x in S if x[0][0] != 'c') for S in ss))
            if len(ss) > MAX:
                raise TooMany()
        return ss

    # ---- expressions
    def var(self, e):
        e = strip(e)
        if e and e['k'] == 'ref' and e['dk'] in ('param', 'local'):
            return e['d']
        return None

    def root(self, e):
        """The pointer variable whose pointee e lies in, or None."""
        e = strip(e)
        while e is not None:
            k = e['k']
            if k == 'un' and e['op'] == '*':
                v = self.var(e['e'])
                return v
            if k == 'idx':
                v = self.var(e['a'])
                t = strip(e['a'])
                if v is not None and is_ptr(t['t']):
                    return v
                e = t
                continue
            if k == 'mem':
                if e.get('arrow'):
                    return self.var(e.get('o'))
                e = strip(e.get('o'))
                continue
            if k == 'opcall' and e['op'] in ('[]', '()', '->', '*'):
                e = strip(e['a'][0])
                continue
            if k == 'ref' and e['d'] in self.refs:
                return self.refs[e['d']]
            return None
        return None

    def mark(self, S, d):
        return self.put(S, ('s', d), 1) if d in self.track else S

    def write(self, S, lhs):
        """Assignment to the lvalue lhs."""
        l = strip(lhs)
        r = self.root(l)
        if r is not None:
            if l['k'] == 'un' and l['op'] == '*' or l['k'] == 'ref':
                self.whole.add(r)
                self.direct.add(r)
            elif l['k'] == 'idx' and self.var(l['a']) == r:
                self.elem.add(r)
            S = self.mark(S, r)
        return S

    def deref(self, S, e, how):
        d = self.var(e)
        if d is None:
            return
        if self.get(S, ('n', d)) == 0:
            n = strip(e)
            if how == '[]' and d in self.counted:
                return
            if d not in self.params and not any(k[0] == 'n' and v == 0 and k[1] in self.params for k, v in S):
                return        # null for a reason other than an absent argument
            self.deref_null.append((d, n['n'], e, how))

    def read(self, S, d, n):
        if d in self.track and self.get(S, ('s', d)) is None:
            self.reads.append((d, n))

    def seq(self, es, S):
        out = [S]
        for e in es:
            out = self.cap([s2 for s in out for s2, _ in self.ev(e, s)])
        return out

    def truth(self, v):
        return v

    def cond_key(self, e):
        """Key of a condition all of whose variables never change."""
        t = text(e)
        if len(t) > 200 or self.cnt.get(t, 0) < 2:
            return None
        for n in walk(e):
            if n['k'] == 'ref' and n['dk'] in ('param', 'local') and n['d'] in self.mutated:
                return None
            if n['k'] in ('lambda', 'str', 'opcall') or n['k'] == 'call' and shortname(n.get('f', 'x')) not in (
                    'NumAxes', 'Dim', 'Dim0', 'NumElements', 'TotSize', 'GetDeviceType', 'size', 'empty', 'Dim1', 'NumArcs', 'NumStates', 'IsCpu'):
                return None
        return ('c', t)

    def ev(self, e, S):
        """[(state, value)]; the value is 0 (null or false), 1 or None."""
        if e is None:
            return [(S, None)]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(e, S)
        # anything else: the children in order
        ch = []
        for key in ('c', 'o', 'a', 'b', 'e', 'i', 'n'):
            v = e.get(key)
            if isinstance(v, dict):
                ch.append(v)
            elif isinstance(v, list):
                ch += [x for x in v if isinstance(x, dict)]
        return [(s, None) for s in self.seq(ch, S)]

    def e_null(self, e, S):
        return [(S, 0)]

    def e_boolean(self, e, S):
        return [(S, 1 if e['v'] else 0)]

    def e_int(self, e, S):
        return [(S, 1 if e['v'] else 0)]

    def e_cast(self, e, S):
        return self.ev(e['e'], S)

    e_dflt = e_cast

    def e_bool(self, e, S):
        return self.test(e['e'], S)

    def test(self, e, S):
        """The value of e as a condition, splitting on pointers."""
        x = strip(e)
        if x is None:
            return [(S, None)]
        d = self.var(x)
        if d is not None:
            key = ('n', d) if is_ptr(x['t']) else ('b', d) if d not in self.mutated else None
            if key:
                v = self.get(S, key)
                if v is not None:
                    return [(S, v)]
                return [(self.put(S, key, 1), 1), (self.put(S, key, 0), 0)]
            return [(S, None)]
        return self.ev(x, S)

    def e_un(self, e, S):
        op = e['op']
        if op == '!':
            return [(s, None if v is None else 1 - v) for s, v in self.test(e['e'], S)]
        if op == '*':
            self.deref(S, e['e'], '*')
            d = self.var(e['e'])
            out = self.ev(e['e'], S)
            if d is not None:
                self.read(S, d, e)
            return [(s, None) for s, _ in out]
        if op == '&':
            x = strip(e['e'])
            r = self.root(x)
            if r is not None:
                self.deref(S, x['e'] if x['k'] == 'un' else x.get('a') if x['k'] == 'idx' else x.get('o') if x['k'] == 'mem' else None, '&')
                return [(self.mark(S, r), 1)]
            d = self.var(x)
            if d is not None and is_ptr(x['t']):
                return [(self.put(S, ('n', d), None), 1)]
            return [(s, 1) for s, _ in self.ev(e['e'], S)]
        out = self.ev(e['e'], S)
        if op in ('++', '--'):
            return [(self.write(s, e['e']), None) for s, _ in out]
        return [(s, None) for s, _ in out]

    def e_bin(self, e, S):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, v in self.test(e['a'], S):
                if v == (0 if op == '&&' else 1):
                    out.append((s, v))
                    continue
                r = self.test(e['b'], s)
                if v is None:
                    # the left side may decide alone
                    out.append((s, 0 if op == '&&' else 1))
                for s2, v2 in r:
                    out.append((s2, v2))
            return list(dict.fromkeys(out))
        if op in ('==', '!='):
            a, b = strip(e['a']), strip(e['b'])
            if b and b['k'] == 'null':
                pass
            elif a and a['k'] == 'null':
                a, b = b, a
            else:
                a = None
            if a is not None:
                r = self.test(a, S)
                if op == '==':
                    r = [(s, None if v is None else 1 - v) for s, v in r]
                return r
            ck = self.cond_key(e)
            ss = self.seq([e['a'], e['b']], S)
            return self.known(ck, ss)
        if op == '=':
            out = []
            a = strip(e['a'])
            d = self.var(a)
            for s, v in self.rhs(e['b'], S):
                if d is not None:
                    if is_ptr(a['t']):
                        s = self.put(s, ('n', d), v)
                    elif a['t'] == 'bool':
                        s = self.put(s, ('b', d), None)
                    out.append((s, v))
                    continue
                for s2 in self.lval(a, s):
                    out.append((self.write(s2, a), None))
            return out
        if op.endswith('=') and op not in ('<=', '>='):
            ss = self.seq([e['b']], S)
            out = []
            for s in ss:
                for s2 in self.lval(strip(e['a']), s):
                    out.append((self.write(s2, e['a']), None))
            return out
        ss = self.seq([e['a'], e['b']], S)
        if op in ('<', '>', '<=', '>='):
            return self.known(self.cond_key(e), ss)
        if op == ',':
            return [r for s, _ in self.ev(e['a'], S) for r in self.ev(e['b'], s)]
        return [(s, None) for s in ss]

    def known(self, ck, ss):
        if ck is None:
            return [(s, None) for s in ss]
        out = []
        for s in ss:
            v = self.get(s, ck)
            if v is not None:
                out.append((s, v))
            else:
                out += [(s | {(ck, 1)}, 1), (s | {(ck, 0)}, 0)]
        return out

    def rhs(self, e, S):
        """Value of an expression stored in a variable; a pointer output stored
        somewhere else has been handed on."""
        x = strip(e)
        if x is not None and x['k'] == 'cond' and not fatal(x['f']):
            out = []
            for s, v in self.test(x['c'], S):
                if v != 0:
                    out += self.rhs(x['t'], s)
                if v != 1:
                    out += self.rhs(x['f'], s)
            return list(dict.fromkeys(out))
        d = self.var(e)
        r = self.ev(e, S)
        if d is not None and d in self.track and is_ptr(strip(e)['t']):
            r = [(self.mark(s, d), v) for s, v in r]
            self.whole.add(d)
        return r

    def lval(self, a, S):
        """States after evaluating the parts of an lvalue (no read of it)."""
        if a is None:
            return [S]
        if a['k'] == 'un' and a['op'] == '*':
            self.deref(S, a['e'], '*')
            return [s for s, _ in self.ev(a['e'], S)]
        if a['k'] == 'idx':
            self.deref(S, a['a'], '[]')
            return [s2 for s in self.lval(strip(a['a']), S) for s2, _ in self.ev(a['i'], s)]
        if a['k'] == 'mem':
            if a.get('arrow'):
                self.deref(S, a.get('o'), '->')
            return self.lval(strip(a.get('o')), S)
        if a['k'] == 'ref':
            return [S]
        return [s for s, _ in self.ev(a, S)]

    def e_ref(self, e, S):
        if e.get('d') in self.lambdas and self.lamdepth < 6:
            return self.e_lambda(self.lambdas[e['d']], S)
        if e['dk'] in ('param', 'local'):
            d = e['d']
            v = self.get(S, ('n', d))
            if v is None:
                v = self.get(S, ('b', d))
            return [(S, v)]
        return [(S, None)]

    def e_idx(self, e, S):
        self.deref(S, e['a'], '[]')
        d = self.var(e['a'])
        if d is not None:
            self.read(S, d, e)
        return [(s, None) for s in self.seq([e['a'], e['i']], S)]

    def e_mem(self, e, S):
        if e.get('arrow') and e.get('o'):
            self.deref(S, e['o'], '->')
            d = self.var(e['o'])
            if d is not None:
                self.read(S, d, e)
        return [(s, None) for s, _ in self.ev(e.get('o'), S)]

    def e_cond(self, e, S):
        out = []
        if fatal(e['f']) and not fatal(e['t']):
            # K2_CHECK: only the passing side goes on
            for s, v in self.test(e['c'], S):
                if v != 0:
                    out += self.ev(e['t'], s)
            return list(dict.fromkeys(out))
        for s, v in self.test(e['c'], S):
            if v != 0:
                out += self.ev(e['t'], s)
            if v != 1:
                out += self.ev(e['f'], s)
        return list(dict.fromkeys(out))

    def e_lambda(self, e, S):
        if e['b'] is None:
            return [(S, None)]
        self.lamdepth += 1
        save, self.rets = self.rets, []
        try:
            nx, _, _ = self.st(e['b'], [S])
            nx = nx + [s for s, _ in self.rets]
        finally:
            self.rets = save
            self.lamdepth -= 1
        return [(s, None) for s in self.cap(nx or [S])]

    def e_ctor(self, e, S):
        out = []
        for s in self.seq(e['a'], S):
            for a in e['a']:
                d = self.var(a)
                if d is not None and d in self.track and is_ptr(strip(a)['t']):
                    s = self.mark(s, d)
            out.append((s, None))
        if e['t'].endswith('internal::Logger'):
            if fatal(e):
                return []
        return out

    def e_opcall(self, e, S):
        op = e['op']
        if op in ('=', '+=', '-=', '*=', '|=', '<<=') and e['a']:
            out = []
            for s in self.seq(e['a'][1:], S):
                for s2 in self.lval(strip(e['a'][0]), s):
                    out.append((self.write(s2, e['a'][0]), None))
            return out
        if op == '<<' and fatal(e):
            self.seq(e['a'], S)
            return []
        if op in ('!', 'bool'):
            return [(s, None) for s in self.seq(e['a'], S)]
        # pointers handed to a functor
        out = []
        for s in self.seq(e['a'], S):
            for a in e['a'][1:]:
                d = self.var(a)
                if d is not None and d in self.track and is_ptr(strip(a)['t']):
                    s = self.mark(s, d)
            out.append((s, None))
        return out

    def callees(self, e):
        f = e.get('f')
        if not f:
            return []
        c = self.prog.by_name.get(f, [])
        if not c and e.get('dep'):
            c = self.prog.by_name.get('k2::' + f, []) or self.prog.by_name.get('k2host::' + f, [])
        n = len(e['a'])
        c = [g for g in c if len(g.params) == n]
        if e.get('fd') is not None and len(c) > 1:
            d = [g for g in c if g.tu == self.fn.tu and g.d.get('fd') == e['fd']]
            if d:
                return d
            # the overloads whose parameter types suit
            d = [g for g in c if all(not (isinstance(strip(a).get('t'), str) and is_ptr(g.params[i]['t']) != is_ptr(strip(a)['t']))
                                     for i, a in enumerate(e['a']) if strip(a) is not None)]
            c = d or c
        return c

    def e_call(self, e, S):
        name = shortname(e.get('f', ''))
        if name == '__builtin_expect' and e['a']:
            return self.test(e['a'][0], S)
        out = []
        states = [S]
        obj = e.get('o')
        if obj is not None:
            if e.get('arrow'):
                self.deref(S, obj, '->')
            else:
                o = strip(obj)
                if o and o['k'] == 'un' and o['op'] == '*':
                    self.deref(S, o['e'], '*')
            if self.root_obj(e) is None:
                states = [s for s, _ in self.ev(obj, S)]
        elif e.get('c') is not None:
            states = [s for s, _ in self.ev(e['c'], S)]
        for i, a in enumerate(e['a']):
            x = strip(a)
            if x and x['k'] == 'un' and x['op'] == '*' and self.byref(e, i):
                for s in states:
                    self.deref(s, x['e'], '*')
                d = self.var(x['e'])
                states = [self.mark(s, d) if d is not None else s for s in states]
                continue
            states = self.cap([s2 for s in states for s2, _ in self.ev(a, s)])
        cs = self.callees(e)
        fills = name in ('copy', 'copy_n', 'fill', 'fill_n', 'memcpy', 'memset', 'iota', 'transform') and not cs
        for s in states:
            for i, a in enumerate(e['a']):
                d = self.var(a)
                if fills and d is not None:
                    self.deref(s, a, 'argument %d of %s' % (i + 1, name))
                if d is None or not is_ptr(strip(a)['t']):
                    if d is None:
                        v = strip(a)
                        if v is not None and v['k'] == 'null' and cs and self.summary and all(self.summary.needs(g, i) for g in cs):
                            self.deref_null.append((None, 'nullptr', e, 'argument %d of %s' % (i + 1, name)))
                    continue
                if self.get(s, ('n', d)) == 0 and cs and self.summary and all(self.summary.needs(g, i) for g in cs):
                    self.deref_null.append((d, strip(a)['n'], e, 'argument %d of %s' % (i + 1, name)))
                if d in self.track:
                    if not cs or not self.summary or any(self.summary.sets(g, i) for g in cs):
                        s = self.mark(s, d)
                        self.whole.add(d) if cs and self.summary and any(self.summary.whole(g, i) for g in cs) else None
                    elif any(self.summary.inout(g, i) for g in cs):
                        self.read(s, d, e)
            r = self.root_obj(e)
            if r is not None:
                if self.mutating(e):
                    if name in ('Init',):
                        self.whole.add(r)
                    s = self.mark(s, r)
                else:
                    self.read(s, r, e)
            v = None
            if name == 'IsValid':
                v = 1          # an object that was never set is no input
            elif name == 'IsEmpty' and self.buffers:
                v = 0          # a buffer of no elements needs no filling
            if name in ('Data', 'data', 'get') and e['t'].endswith('*'):
                v = 1
            out.append((s, v))
        if name in ('abort', 'exit', '_Exit', 'terminate', 'torchCheckFail', 'torchInternalAssertFail', '__assert_fail', '__throw_error'):
            return []
        return list(dict.fromkeys(out))

    def byref(self, e, i):
        f = e.get('f', '')
        if shortname(f) in ('swap', 'move', 'forward'):
            return True
        cs = self.callees(e)
        return bool(cs) and all(g.params[i]['t'].endswith('&') and not g.params[i]['t'].startswith('const ') for g in cs)

    def root_obj(self, e):
        o = strip(e.get('o')) if e.get('o') is not None else None
        if o is None:
            return None
        if e.get('arrow'):
            return self.var(o)
        return self.root(o)

    def mutating(self, e):
        name = shortname(e['f'])
        if name in STD_MUT:
            return True
        cs = self.prog.by_name.get(e['f'], [])
        if cs:
            return all(not g.const for g in cs)
        return e.get('f', '').startswith('k2') and name not in ('Dim', 'Data', 'NumAxes', 'Context', 'TotSize')

    # ---- statements: (next, break, continue)
    def st(self, n, SS):
        if n is None or not SS:
            return SS, [], []
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            r = m(n, SS)
            return self.cap(r[0]), r[1], r[2]
        nx = []
        for S in SS:
            nx += [s for s, _ in self.ev(n, S)]
        return self.cap(nx), [], []

    def s_blk(self, n, SS):
        br, co = [], []
        for x in n['b']:
            SS, b, c = self.st(x, SS)
            br += b
            co += c
        return SS, br, co

    def s_nop(self, n, SS):
        return SS, [], []

    def s_decl(self, n, SS):
        for v in n['b']:
            SS = self.declare(v, SS)
        return SS, [], []

    def declare(self, v, SS):
        i = v.get('i')
        if i is None:
            return SS
        t = v.get('t', '')
        x = strip(i)
        if x is not None and x['k'] == 'lambda':
            self.lambdas[v['d']] = x
            return SS
        if t.endswith('&'):
            r = self.root(i)
            if r is not None:
                x = strip(i)
                for S in SS:
                    if x['k'] == 'un':
                        self.deref(S, x['e'], '*')
                if x['k'] == 'un' and x['op'] == '*':
                    self.refs[v['d']] = r
                    return SS
                if r in self.track:
                    return [self.mark(S, r) for S in SS]
        out = []
        for S in SS:
            for s, val in self.rhs(i, S) if is_ptr(t) else self.ev(i, S):
                if is_ptr(t):
                    if strip(i)['k'] == 'ref' and val is None and self.var(i) in self.params:
                        # an alias: equal nullness, unknown so far
                        for vv in (0, 1):
                            out.append(self.put(self.put(s, ('n', v['d']), vv), ('n', self.var(i)), vv))
                        continue
                    s = self.put(s, ('n', v['d']), val)
                elif t in ('bool', 'const bool') and val is not None and v['d'] not in self.mutated:
                    s = self.put(s, ('b', v['d']), val)
                out.append(s)
        return self.cap(out)

    def s_if(self, n, SS):
        if n.get('init'):
            SS, _, _ = self.st(n['init'], SS)
        if n.get('cv'):
            SS = self.declare(n['cv'], SS)
        t, f = [], []
        for S in SS:
            for s, v in self.test(n['c'], S):
                if v != 0:
                    t.append(s)
                if v != 1:
                    f.append(s)
        a = self.st(n['t'], self.cap(t))
        b = self.st(n.get('f'), self.cap(f))
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]

    def loop(self, cond, body, step, SS, first=False):
        """Exit states; a loop that writes an output is taken to run."""
        seen, exits = set(), []
        work = list(SS)
        zero = []
        rnd = 0
        while work and rnd < 4:
            tr = []
            for S in work:
                if cond is None or (first and rnd == 0):
                    tr.append(S)
                    continue
                for s, v in self.test(cond, S):
                    if v != 1:
                        (zero if rnd == 0 else exits).append(s)
                    if v != 0:
                        tr.append(s)
            tr = [s for s in self.cap(tr) if s not in seen]
            seen |= set(tr)
            nx, br, co = self.st(body, tr)
            exits += br
            work = self.cap(nx + co)
            if step is not None:
                work = self.cap([s for S in work for s, _ in self.ev(step, S)])
            if cond is None:
                # range loop: may stop after any element
                exits += work
            rnd += 1
        exits += [s for S in work for s, v in (self.test(cond, S) if cond is not None else [(S, None)]) if v != 1]
        done = set(k for s in exits for k, v in s if k[0] == 's') | set(k for s in seen for k, v in s if k[0] == 's')
        out = []
        for s in zero + exits:
            for k in done:
                s = self.put(s, k, 1)
            out.append(s)
        return self.cap(out)

    def s_for(self, n, SS):
        if n.get('i'):
            SS, _, _ = self.st(n['i'], SS)
        c = n.get('c')
        if c is None:
            c = {'k': 'boolean', 'v': 1, 'l': n['l']}
        return self.loop(c, n['b'], n.get('s'), SS), [], []

    def s_while(self, n, SS):
        return self.loop(n['c'], n['b'], None, SS), [], []

    def s_do(self, n, SS):
        c = strip(n['c'])
        if c['k'] in ('int', 'boolean') and not c.get('v'):
            nx, br, co = self.st(n['b'], SS)
            return nx + br + co, [], []
        return self.loop(n['c'], n['b'], None, SS, first=True), [], []

    def s_range(self, n, SS):
        SS = [s for S in SS for s, _ in self.ev(n['r'], S)]
        ex = self.loop(None, n['b'], None, SS)
        done = set(k for s in ex for k, v in s if k[0] == 's')
        z = []
        for s in SS:
            for k in done:
                s = self.put(s, k, 1)
            z.append(s)
        return ex + z, [], []

    def s_switch(self, n, SS):
        SS = [s for S in SS for s, _ in self.ev(n['c'], S)]
        body = n['b']['b'] if n['b'] and n['b']['k'] == 'blk' else [n['b']]
        cur, out, co, dflt = [], [], [], False
        for x in body:
            y = x
            while y is not None and y['k'] in ('case', 'default'):
                dflt = dflt or y['k'] == 'default'
                cur = self.cap(cur + SS)
                y = y.get('b')
            cur, b, c = self.st(y, cur)
            out += b
            co += c
        out += cur
        if not dflt:
            out += SS
        return out, [], co

    def s_case(self, n, SS):
        return self.st(n.get('b'), SS)

    s_default = s_case

    def s_break(self, n, SS):
        return [], list(SS), []

    def s_continue(self, n, SS):
        return [], [], list(SS)

    def s_ret(self, n, SS):
        for S in SS:
            for s, v in self.ev(n.get('e'), S):
                self.rets.append((s, dict(n, val=v)))
        return [], [], []

    def s_throw(self, n, SS):
        return [], [], []

    def s_try(self, n, SS):
        r = self.st(n['b'], SS)
        for h in n.get('h', []):
            x = self.st(h, SS)
            r = (r[0] + x[0], r[1] + x[1], r[2] + x[2])
        return r

    def run(self, assume):
        S = frozenset(assume)
        SS = [S]
        for i in self.fn.d.get('inits') or []:
            SS = self.cap([s for x in SS for s, _ in self.rhs_init(i, x)])
        nx, _, _ = self.st(self.fn.body, SS)
        self.rets += [(s, None) for s in nx]

    def rhs_init(self, i, S):
        e = i.get('e') or i.get('i')
        return self.rhs(e, S) if e is not None else [(S, None)]
