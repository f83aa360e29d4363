"""Classes with a mutex: which members are used with it held, waits and
notifications, and the order in which locks are taken."""
from cxx import walk, text, shortname
from cxxpath import strip, fatal

READ = {'begin', 'end', 'front', 'back', 'at', 'find', 'lower_bound', 'upper_bound', 'size', 'empty', 'count', 'data', 'cbegin', 'cend', 'top', 'load', 'get'}
GROW = {'emplace', 'emplace_back', 'push', 'push_back', 'push_front', 'insert', 'emplace_front', 'append'}
SHRINK = {'pop', 'pop_front', 'pop_back', 'erase', 'clear'}
GUARDS = ('std::lock_guard<', 'std::scoped_lock<', 'std::unique_lock<')
ASSIGN = ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=')


def tname(t):
    return t.replace('const ', '').rstrip('& ').strip() if isinstance(t, str) else ''


def own_member(e):
    """The member of this that e is a part of, or stands for."""
    e = strip(e)
    while e is not None:
        if e['k'] == 'mem':
            o = strip(e['o']) if e.get('o') is not None else None
            if o is None or o['k'] == 'this':
                return e['n']
            e = o
        elif e['k'] == 'idx':
            e = strip(e['a'])
        elif e['k'] == 'opcall' and e['op'] in ('[]', '*', '->') and e['a']:
            e = strip(e['a'][0])
        elif e['k'] == 'un' and e['op'] in ('*', '&'):
            e = strip(e['e'])
        else:
            return None
    return None


class Method:
    """What a method of a class with a mutex does, in order."""

    def __init__(self, K, name, body, entry=frozenset(), label=None, fn=None):
        self.K, self.name, self.label, self.fn = K, name, label or name, fn
        self.body = body
        self.entry = frozenset(entry)
        self.access = []        # (member, write, held, node)
        self.calls = []         # (method name, held, node)
        self.blocking = []      # (what, held, node, mutex let go)
        self.waits = []         # (cv, node, loops, held)
        self.trouble = []       # (rule, node, text)
        self.taken = []         # (mutex, held, node)
        self.tasks = []         # (node, held): a std::function is called
        self.unsent = []        # (cv, node): a change that waiters look for, without notification
        self.threads = []       # lambdas run by threads made here
        self.locks = {}         # local lock variable -> [mutex, is it held]
        self.refs = {}          # local reference -> member
        self.loops = []
        self.conds = []
        self.sets = []          # (member, value, conditions, node, held, section)
        self.section = 0
        self.held = frozenset(entry)
        self.pend = {}
        self.sent = set()
        self.dead = False
        self.fin = []
        self.scopes = []
        self.decls = {}

    def run(self):
        self.st(self.body)
        if not self.dead:
            self.exit(self.body)
        return self

    # ---- control
    def exit(self, n):
        for cv, node in self.pend.items():
            self.unsent.append((cv, node))

    def snap(self):
        return (self.held, {k: list(v) for k, v in self.locks.items()}, dict(self.pend), set(self.sent), self.dead, self.section)

    def back(self, s):
        self.held, self.locks, self.pend, self.sent, self.dead, self.section = s[0], {k: list(v) for k, v in s[1].items()}, dict(s[2]), set(s[3]), s[4], s[5]

    def join(self, a, b):
        if a[4]:
            return b
        if b[4]:
            return a
        locks = {}
        for k in set(a[1]) | set(b[1]):
            x, y = a[1].get(k), b[1].get(k)
            locks[k] = [(x or y)[0], bool(x and y and x[1] and y[1])]
        pend = dict(a[2])
        pend.update(b[2])
        return (a[0] & b[0], locks, pend, a[3] & b[3], False, max(a[5], b[5]))

    def st(self, n):
        if n is None or self.dead:
            return
        k = n['k']
        if k == 'blk':
            self.scopes.append([])
            cs = len(self.conds)
            for x in n['b']:
                self.st(x)
            del self.conds[cs:]
            for d in reversed(self.scopes.pop()):
                if d in self.locks:
                    m, h = self.locks.pop(d)
                    if h and not self.dead:
                        self.release(m)
        elif k == 'decl':
            for v in n['b'] if isinstance(n.get('b'), list) else []:
                if v.get('k') == 'var':
                    self.declare(v)
        elif k == 'if':
            if n.get('init'):
                self.st(n['init'])
            self.ev(n['c'])
            s = self.snap()
            self.conds.append((n['c'], True))
            self.st(n['t'])
            self.conds.pop()
            a = self.snap()
            self.back(s)
            if n.get('f') is not None:
                self.conds.append((n['c'], False))
                self.st(n['f'])
                self.conds.pop()
            b = self.snap()
            j = self.join(a, b)
            gone = None
            if a[4] and not b[4]:
                gone = (n['c'], False)
            self.back(j)
            if gone:
                self.conds.append(gone)
                self.fin.append(1)
        elif k in ('while', 'for', 'do', 'range'):
            if k == 'for':
                self.st(n.get('i'))
            if k == 'range':
                v = n['v']
                m = None
                for x in walk(n):
                    if x is v:
                        break
                src = n.get('r') or n.get('e') or n.get('c')
                m = own_member(src) if src is not None and src.get('k') else None
                if m is None:
                    for x in walk({'k': 'x', 'q': [n.get('rd'), src]}):
                        if x['k'] == 'mem' and own_member(x):
                            m = own_member(x)
                if m:
                    self.refs[v['d']] = m
                    self.touch(m, False, n)
            s0 = self.snap()
            for turn in range(2):
                self.loops.append(n)
                cs = len(self.conds)
                if k in ('while', 'for') and n.get('c') is not None:
                    self.ev(n['c'])
                    test = self.snap()
                    self.conds.append((n['c'], True))
                else:
                    test = self.snap()
                self.breaks = getattr(self, 'breaks', [])
                self.breaks.append([])
                self.st(n['b'])
                if not self.dead:
                    if k == 'for' and n.get('s') is not None:
                        self.ev(n['s'])
                    if k == 'do':
                        self.ev(n['c'])
                end = self.snap()
                outs = self.breaks.pop()
                del self.conds[cs:]
                self.loops.pop()
                if turn == 0:
                    if not end[4] and end[0] != s0[0]:
                        self.trouble.append(('lock', n, 'the locks held at the end of the loop are not those at its beginning'))
                    self.back(self.join(s0, end))
                    s0 = self.snap()
            endless = k in ('while', 'for') and (n.get('c') is None or strip(n['c'])['k'] in ('int', 'boolean') and strip(n['c']).get('v'))
            r = None if endless else (test if k != 'do' else end)
            for o in outs:
                r = o if r is None else self.join(r, o)
            if r is None:
                self.dead = True
            else:
                self.back(r)
        elif k == 'ret':
            self.ev(n.get('e'))
            self.exit(n)
            self.dead = True
        elif k == 'break':
            if getattr(self, 'breaks', None):
                self.breaks[-1].append(self.snap())
            self.dead = True
        elif k == 'continue':
            self.dead = True
        elif k == 'throw':
            self.dead = True
        elif k == 'switch':
            self.ev(n['c'])
            s = self.snap()
            self.breaks = getattr(self, 'breaks', [])
            self.breaks.append([])
            self.st(n['b'])
            e = self.snap()
            r = self.join(s, e)
            for o in self.breaks.pop():
                r = self.join(r, o)
            self.back(r)
        elif k in ('case', 'default', 'within', 'label', 'try'):
            self.st(n.get('b'))
        elif k == 'nop':
            pass
        else:
            self.ev(n)

    def declare(self, v):
        t = v.get('t', '')
        i = v.get('i')
        self.decls[v['d']] = v
        if t.startswith(GUARDS):
            a = strip(i)['a'] if i is not None and strip(i)['k'] == 'ctor' else []
            m = own_member(a[0]) if a else None
            deferred = any('defer' in text(x) for x in a[1:])
            if m:
                self.locks[v['d']] = [m, False]
                if self.scopes:
                    self.scopes[-1].append(v['d'])
                if not deferred:
                    self.acquire(m, v, any('adopt' in text(x) for x in a[1:]))
                    self.locks[v['d']][1] = True
            return
        self.ev(i)
        m = self.stands_for(i) if i is not None else None
        if m and (t.endswith('&') or 'iterator' in t or t.endswith('*')):
            self.refs[v['d']] = m

    def stands_for(self, e):
        """The member that a reference made from e refers into."""
        m = own_member(e)
        if m:
            return m
        x = strip(e)
        if x is None:
            return None
        if x['k'] == 'call' and x.get('o') is not None and shortname(x.get('f') or x.get('n') or '') in ('front', 'back', 'at', 'find', 'begin', 'lower_bound', 'top', 'upper_bound', 'data'):
            return own_member(x['o']) or self.local_ref(x['o'])
        if x['k'] in ('mem', 'opcall', 'un'):
            for y in walk(x):
                if y['k'] == 'ref' and y.get('d') in self.refs:
                    return self.refs[y['d']]
        return self.local_ref(x)

    def local_ref(self, e):
        e = strip(e)
        while e is not None and e['k'] in ('mem', 'opcall', 'un', 'idx'):
            e = strip(e.get('o') if e['k'] == 'mem' else e['a'][0] if e['k'] == 'opcall' else e['e'] if e['k'] == 'un' else e['a'])
        if e is not None and e['k'] == 'ref':
            return self.refs.get(e.get('d'))
        return None

    # ---- locks
    def acquire(self, m, n, adopted=False):
        if m in self.held and not adopted:
            self.trouble.append(('lock', n, '`%s` is taken here while it is held: the thread waits for itself' % m))
        if not adopted:
            self.taken.append((m, self.held, n))
        self.held |= {m}
        self.section += 1

    def release(self, m):
        self.held -= {m}
        self.sent = set()
        self.section += 1

    # ---- expressions
    def ev(self, e):
        if e is None or self.dead:
            return
        if isinstance(e, list):
            for x in e:
                self.ev(x)
            return
        if not isinstance(e, dict) or 'k' not in e:
            return
        k = e['k']
        if k == 'lambda':
            return              # run where it is called
        if k == 'bin' and e['op'] in ASSIGN:
            self.ev(e['b'])
            self.write(e['a'], e['op'], e['b'], e)
            return
        if k == 'un' and e['op'] in ('++', '--', 'post++', 'post--', 'p++', 'p--'):
            self.write(e['e'], e['op'][-2:], None, e)
            return
        if k == 'opcall':
            op = e['op']
            if op in ASSIGN and len(e['a']) == 2:
                self.ev(e['a'][1])
                self.write(e['a'][0], op, e['a'][1], e)
                return
            if op in ('++', '--') and e['a']:
                x = strip(e['a'][0])
                m = own_member(x)
                if m:
                    self.write(x, op, None, e)
                else:
                    self.ev(e['a'])
                return
            if op == '()':
                x = strip(e['a'][0])
                if 'std::function<' in tname(x.get('t')):
                    self.tasks.append((e, self.held, x, self.section))
            if op == '<<' and fatal(e):
                self.dead = self.dead
            self.ev(e['a'])
            return
        if k == 'cond':
            self.ev(e['c'])
            if fatal(e.get('f') or {'k': 'x'}) or fatal(e.get('t') if isinstance(e.get('t'), dict) else {'k': 'x'}):
                return          # a check
            s = self.snap()
            self.ev(e.get('t') if isinstance(e.get('t'), dict) else None)
            a = self.snap()
            self.back(s)
            self.ev(e.get('f'))
            self.back(self.join(a, self.snap()))
            return
        if k == 'call':
            self.call(e)
            return
        if k == 'ctor':
            if tname(e.get('t')) == 'std::thread':
                self.thread(e)
            self.ev(e['a'])
            return
        if k == 'mem':
            m = own_member(e)
            if m:
                self.touch(m, False, e)
                if e.get('o') is not None:
                    for x in walk(e['o']):
                        if x['k'] in ('idx', 'opcall', 'call'):
                            self.sub(x)
                return
            d = self.local_ref(e)
            if d:
                self.touch(d, False, e)
            self.ev(e.get('o'))
            return
        if k == 'ref':
            return
        for x, y in e.items():
            if x in ('t', 'f') and not isinstance(y, (dict, list)):
                continue
            if isinstance(y, (dict, list)):
                self.ev(y)

    def sub(self, x):
        if x['k'] == 'idx':
            self.ev(x['i'])
        elif x['k'] == 'opcall':
            self.ev(x['a'][1:])

    def thread(self, e):
        for a in e['a']:
            x = strip(a)
            if x is not None and x['k'] == 'lambda':
                self.threads.append(x)

    def touch(self, m, write, n):
        self.access.append((m, write, self.held, n, self.section))

    def write(self, l, op, v, n):
        l = strip(l)
        m = own_member(l)
        if m is None:
            m = self.local_ref(l)
            if m and not (l['k'] == 'ref' and self.decls.get(l.get('d'), {}).get('t', '').endswith(('*', 'iterator'))):
                self.touch(m, True, n)
            self.ev(l)
            return
        self.touch(m, True, n)
        what = ('other', None)
        x = strip(v) if v is not None else None
        direct = l['k'] == 'mem'
        if op == '=' and x is not None and x['k'] in ('int', 'boolean', 'bool') and 'v' in x:
            what = ('const', int(x['v']) if not isinstance(x['v'], bool) else int(x['v']))
        elif op in ('++', '+='):
            what = ('up', None)
        elif op in ('--', '-='):
            what = ('down', None)
        self.sets.append((m, what, list(self.conds), n, self.held, self.section))
        if direct:
            self.changed(m, what, n)

    def changed(self, m, what, n):
        for cv, P in self.K.waited(m):
            if P is None:
                continue
            if ev3(P, m, what) is True:
                continue
            if cv not in self.sent:
                self.pend[cv] = n

    def call(self, e):
        name = shortname(e.get('f') or e.get('n') or '')
        o = strip(e['o']) if e.get('o') is not None else None
        args = e['a']
        if o is not None and o['k'] == 'ref' and o.get('d') in self.locks:
            m = self.locks[o['d']][0]
            if name == 'lock':
                self.acquire(m, e)
                self.locks[o['d']][1] = True
            elif name in ('unlock', 'release'):
                if not self.locks[o['d']][1]:
                    self.trouble.append(('lock', e, '`%s` is let go here though it is not held' % m))
                self.locks[o['d']][1] = False
                self.release(m)
            elif name in ('try_lock', 'owns_lock'):
                pass
            return
        om = own_member(o) if o is not None else None
        ot = tname(o.get('t')) if o is not None else ''
        if om and 'condition_variable' in ot:
            if name.startswith('notify'):
                self.sent.add(om)
                self.pend.pop(om, None)
                self.K.sent.setdefault(om, []).append((self, name, e, list(self.sets), self.section))
                return
            if name.startswith('wait'):
                a = strip(args[0]) if args else None
                mx = self.locks.get(a.get('d'), [None, False]) if a is not None and a['k'] == 'ref' else [None, False]
                if not mx[1]:
                    self.trouble.append(('wait', e, 'the lock given to wait() is not held'))
                self.waits.append((om, e, list(self.loops), self.held, args[1] if len(args) > 1 else None))
                self.blocking.append(('waits for `%s`' % om, self.held, e, mx[0]))
                self.section += 1
                return
        if om and 'std::mutex' in ot or om and ot.endswith('mutex'):
            if name == 'lock':
                self.acquire(om, e)
            elif name == 'unlock':
                if om not in self.held:
                    self.trouble.append(('lock', e, '`%s` is let go here though it is not held' % om))
                self.release(om)
            return
        if name == 'join' and ot == 'std::thread':
            self.blocking.append(('waits for a thread to end', self.held, e, None))
        if name == 'call_once':
            for a in args:
                x = strip(a)
                if x is not None and x['k'] == 'lambda':
                    self.st(x['b'])
            return
        for a in args:
            self.ev(a)
        if o is not None and o['k'] == 'this' or o is None and e.get('arrow'):
            self.calls.append((name, self.held, e))
            g = self.K.methods.get(name)
            if g is not None:
                for x in walk(g.body):
                    if x['k'] == 'call' and shortname(x.get('f') or '').startswith('notify') and x.get('o') is not None:
                        cv = own_member(x['o'])
                        self.sent.add(cv)
                        self.pend.pop(cv, None)
            return
        if om:
            wr = name in GROW or name in SHRINK or not e.get('const') and name not in READ
            what = ('grow', None) if name in GROW else ('shrink', None) if name in SHRINK else ('other', None)
            if tname(o.get('t')) in self.K.types:
                self.calls.append(((tname(o.get('t')), name), self.held, e))
                return
            self.touch(om, wr, e)
            if wr:
                self.sets.append((om, what, list(self.conds), e, self.held, self.section))
                self.changed(om, what, e)
            if e.get('o') is not None:
                for x in walk(e['o']):
                    self.sub(x) if x['k'] in ('idx', 'opcall') else None
            return
        if o is not None:
            m = self.local_ref(o)
            if m and o['k'] != 'ref':
                self.touch(m, not e.get('const') and name not in READ, e)
            elif m and self.decls.get(o.get('d'), {}).get('t', '').endswith('&'):
                self.touch(m, not e.get('const') and name not in READ, e)
            else:
                self.ev(o)


def ev3(P, m, what):
    """P (an expression) after member m was changed: True, False or None."""
    e = strip(P)
    if e is None:
        return None
    k = e['k']
    if k == 'un' and e['op'] == '!':
        r = ev3(e['e'], m, what)
        return None if r is None else not r
    if k == 'bin' and e['op'] in ('&&', '||'):
        a, b = ev3(e['a'], m, what), ev3(e['b'], m, what)
        if e['op'] == '&&':
            return False if a is False or b is False else True if a and b else (True if mono(e, m, what) else None)
        return True if a is True or b is True else False if a is False and b is False else None
    if k in ('boolean', 'int') and 'v' in e:
        return bool(e['v'])
    if k == 'mem' and own_member(e) == m:
        return bool(what[1]) if what[0] == 'const' else True if what[0] == 'up' else None
    if k == 'call' and e.get('o') is not None and own_member(e['o']) == m:
        n = shortname(e.get('f') or e.get('n') or '')
        if n == 'empty':
            return False if what[0] == 'grow' else True if what[0] == 'shrink' else None
        return None
    if k == 'bin' and e['op'] in ('==', '!=', '<', '<=', '>', '>='):
        a, b, op = strip(e['a']), strip(e['b']), e['op']
        if b['k'] == 'mem' and own_member(b) == m or b['k'] == 'call' and b.get('o') is not None and own_member(b['o']) == m:
            a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        size = a['k'] == 'call' and shortname(a.get('f') or '') == 'size' and own_member(a['o']) == m
        if (a['k'] == 'mem' and own_member(a) == m or size) and b['k'] in ('int', 'boolean') and 'v' in b:
            v = int(b['v'])
            if what[0] == 'const':
                return {'==': what[1] == v, '!=': what[1] != v, '<': what[1] < v, '<=': what[1] <= v, '>': what[1] > v, '>=': what[1] >= v}[op]
            if what[0] in ('up', 'grow'):
                # towards larger: what asks for little comes not true by it
                if v == 0:
                    return {'==': False, '<=': False, '!=': True, '>': True}.get(op)
                return True if op in ('>', '>=') else None if op != '<' else None
            if what[0] in ('down', 'shrink'):
                return True if op in ('<', '<=') or op == '==' and v == 0 else None
        return None
    return None


def mono(e, m, what):
    """A conjunction one part of which the change only makes more true, the others not about m."""
    out = True
    for x in ('a', 'b'):
        r = ev3(e[x], m, what)
        about = any(own_member(y) == m for y in walk(e[x]) if y['k'] == 'mem')
        if about and r is not True:
            out = False
    return out


class Class:
    """A class with a mutex."""

    def __init__(self, prog, rec, types):
        self.prog, self.rec, self.types = prog, rec, types
        self.name = rec['f']
        self.fields = {f['n']: f['t'] for f in rec['fields']}
        self.mutexes = {n for n, t in self.fields.items() if 'mutex' in t}
        self.cvs = {n for n, t in self.fields.items() if 'condition_variable' in t}
        self.methods = {}
        self.special = []
        seen = set()
        for f in prog.funcs:
            if f.body is None or f.dep or (f.d.get('cls') or '') != self.name and not f.name.startswith(self.name + '::'):
                continue
            if (f.file, f.line) in seen:
                continue
            seen.add((f.file, f.line))
            s = shortname(f.name)
            if f.d.get('ctor') or s == shortname(self.name) or s.startswith('~'):
                self.special.append(f)
            else:
                self.methods[s] = f
        self.sent = {}
        self.P = {}             # cv -> [(expression that is waited on, members, method, node)]
        self.find_waits()
        self.entry = {}
        self.run()

    def waited(self, m):
        return [(cv, P) for cv, ps in self.P.items() for P, ms, f, n in ps if m in ms]

    def find_waits(self):
        for f in list(self.methods.values()) + self.special:
            self.loop_of(f, f.body, [])

    def loop_of(self, f, n, loops):
        if isinstance(n, list):
            for x in n:
                self.loop_of(f, x, loops)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') in ('while', 'for', 'do', 'range'):
            loops = loops + [n]
        if n.get('k') == 'call' and shortname(n.get('f') or n.get('n') or '').startswith('wait') and n.get('o') is not None and own_member(n['o']) in self.cvs:
            cv = own_member(n['o'])
            if len(n['a']) > 1 and strip(n['a'][-1])['k'] == 'lambda':
                b = strip(n['a'][-1])['b']
                e = next((x['e'] for x in walk(b) if x['k'] == 'ret' and x.get('e') is not None), None)
                P = {'k': 'un', 'op': '!', 'e': e, 'l': n['l']} if e is not None else None
            elif loops:
                lp = loops[-1]
                c = strip(lp['c']) if lp['k'] != 'range' and lp.get('c') is not None else None
                if c is None or c['k'] in ('int', 'boolean'):
                    c = None
                    for x in walk(lp['b']):
                        if x['k'] == 'if' and any(y['k'] in ('break', 'ret') for y in walk(x['t'])):
                            c = {'k': 'un', 'op': '!', 'e': x['c'], 'l': n['l']}
                            break
                P = c
            else:
                P = None
            ms = {own_member(x) for x in walk(P) if x['k'] == 'mem'} - {None} if P is not None else set()
            self.P.setdefault(cv, []).append((P, ms, f, n))
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k != 'pos':
                self.loop_of(f, v, loops)

    def run(self):
        """Private helpers are entered with what every caller holds."""
        for turn in range(4):
            self.sent = {}
            self.runs = []
            for s, f in self.methods.items():
                self.runs.append(Method(self, s, f.body, self.entry.get(s, ()), fn=f).run())
            for f in self.special:
                self.runs.append(Method(self, shortname(f.name), f.body, fn=f).run())
            for r in list(self.runs):
                for l in r.threads:
                    self.runs.append(Method(self, r.name + '.thread', l['b'], fn=r.fn, label=r.name + ' (thread)').run())
            held = {}
            for r in self.runs:
                for name, h, e in r.calls:
                    if name in self.methods:
                        held.setdefault(name, []).append(h)
            new = {}
            for s, hs in held.items():
                f = self.methods[s]
                if any(x['k'] == 'decl' and any(str(v.get('t')).startswith(GUARDS) for v in x['b'] if isinstance(v, dict)) for x in walk(f.body) if x['k'] == 'decl' and isinstance(x.get('b'), list)):
                    continue
                outside = [g for g in self.prog.funcs if g.body is not None and (g.d.get('cls') or '') != self.name and any(x['k'] == 'call' and x.get('f') == self.name + '::' + s for x in walk(g.body))] if hs else []
                if outside:
                    continue
                h = frozenset.intersection(*hs)
                if h:
                    new[s] = h
            if new == self.entry:
                break
            self.entry = new
