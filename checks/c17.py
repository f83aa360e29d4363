#!/usr/bin/env python3
"""C17: work handed to threads is done once, in order and without races."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
from cxx import *
from cxxalias import Alias
from cxxlock import Class, ev3, own_member, tname
from cxxpath import strip

sys.setrecursionlimit(100000)


def classes(prog):
    out = {}
    for n, r in prog.records.items():
        if any('mutex' in f['t'] for f in r['fields']) and '_test' not in r['file']:
            out[n] = r
    return out


def lockset(c, K):
    guard = {}
    for r in K.runs:
        for m, w, held, n, sec in r.access:
            if m in K.fields and held & K.mutexes:
                guard.setdefault(m, set()).update(held & K.mutexes)
    ctor = {shortname(f.name) for f in K.special}
    written = {m for r in K.runs if r.name not in ctor for m, w, held, n, sec in r.access if w}
    for m in sorted(set(guard) | written):
        t = K.fields.get(m)
        if t is None or m in K.mutexes or m in K.cvs or 'atomic' in t or t.startswith('const ') or tname(t) in K.types:
            continue
        inst = '%s.%s' % (K.name, m)
        c.ob('guarded', inst)
        # written only while it is made
        if m not in written:
            continue
        for r in K.runs:
            if r.name == shortname(K.name):
                continue        # nobody else has it yet
            for x, w, held, n, sec in r.access:
                if x == m and not held & (guard.get(m) or K.mutexes):
                    c.bad('guarded', inst, r.fn.loc(n), '`%s` is %s in %s without `%s`, while another thread may change it' % (m, 'changed' if w else 'read', r.label, '` or `'.join(sorted(guard.get(m) or K.mutexes))))


def waits(c, K):
    for r in K.runs:
        for rule, n, t in r.trouble:
            c.bad(rule, '%s::%s' % (K.name, r.label), r.fn.loc(n), t)
        c.ob('lock', '%s::%s' % (K.name, r.label))
        for cv, n, loops, held, pred in r.waits:
            inst = '%s::%s:%s' % (K.name, r.label, cv)
            c.ob('wait', inst)
            P = next((p for p in K.P.get(cv, ()) if p[3] is n), None)
            if P is None:
                continue
            if P[0] is None:
                c.bad('wait', inst, r.fn.loc(n), 'the wait for `%s` is not in a loop over what is waited for: a thread may be woken without it' % cv)
                continue
            if not P[1] & set(K.fields):
                c.bad('wait', inst, r.fn.loc(n), 'the wait for `%s` looks at nothing that other threads change' % cv)
            if pred is None and loops:
                # nothing is done with what was waited for before it is looked at again
                after = False
                for x in order(loops[-1]['b']):
                    if x is n:
                        after = True
                        continue
                    if after and x['k'] == 'mem' and own_member(x) in K.fields and own_member(x) not in K.mutexes | K.cvs:
                        c.bad('wait', inst, r.fn.loc(x), '`%s` is used after the wait for `%s` (line %d) before it is known that what was waited for is there' % (own_member(x), cv, n['l']))
                        break
        for cv, n in r.unsent:
            c.bad('notify', '%s::%s:%s' % (K.name, r.label, cv), r.fn.loc(n), '`%s` makes what threads wait for with `%s` come true, and they are not told on every path' % (text(n)[:50], cv))
        # what was seen in one critical section is acted on in it
        for m, what, conds, n, held, sec in r.sets:
            if what[0] not in ('down', 'shrink') or not any(m in ms for ps in K.P.values() for P, ms, f, x in ps) and what[0] == 'down':
                continue
            inst = '%s::%s:%s' % (K.name, r.label, m)
            c.ob('section', inst)
            if not any(x == m and s == sec and y is not n and not w for x, w, h, y, s in r.access):
                c.bad('section', inst, r.fn.loc(n), '`%s`: whether there is something to take was looked at while the lock was not yet held as now' % text(n)[:50])
    # notifications reach those that wait for the change
    many = any('std::vector<std::thread' in t for t in K.fields.values())
    for cv, ss in K.sent.items():
        ms = {m for P, mm, f, n in K.P.get(cv, ()) for m in mm}
        for r, name, n, sets, sec in ss:
            inst = '%s::%s:%s' % (K.name, r.label, cv)
            c.ob('notify', inst)
            changed = [s[0] for s in r.sets if s[5] == sec and s[0] in K.fields]
            if K.P.get(cv) and changed and not set(changed) & ms:
                c.bad('notify', inst, r.fn.loc(n), 'threads are told that `%s` changed, but those that wait for `%s` do not look at it' % ('`, `'.join(sorted(set(changed))), cv))
            if r.name.startswith('~') and many and name == 'notify_one':
                c.bad('notify', inst, r.fn.loc(n), 'only one of the threads that wait for `%s` is told to stop' % cv)


def order(n):
    """Nodes in source order."""
    if isinstance(n, list):
        for x in n:
            yield from order(x)
        return
    if not isinstance(n, dict):
        return
    if 'k' in n:
        yield n
    for k, v in n.items():
        if isinstance(v, (dict, list)) and k != 't' or k == 't' and isinstance(v, dict):
            yield from order(v)


def locks_order(c, Ks, prog):
    """Which locks are taken while which are held."""
    takes, blocks, calls = {}, {}, {}
    for K in Ks.values():
        for r in K.runs:
            key = (K.name, r.name)
            takes.setdefault(key, set()).update((K.name, m) for m, h, n in r.taken)
            if r.blocking:
                blocks.setdefault(key, r.blocking[0][0])
            for name, h, e in r.calls:
                to = name if isinstance(name, tuple) else (K.name, name)
                calls.setdefault(key, set()).add(to)
    for _ in range(6):
        for k, tos in calls.items():
            for t in tos:
                takes.setdefault(k, set()).update(takes.get(t, ()))
                if t in blocks:
                    blocks.setdefault(k, blocks[t])
    edges = {}
    for K in Ks.values():
        for r in K.runs:
            inst = '%s::%s' % (K.name, r.label)
            c.ob('order', inst)
            for m, h, n in r.taken:
                for x in h:
                    edges.setdefault(((K.name, x), (K.name, m)), (r, n))
            for what, h, n, let in r.blocking:
                rest = h - {let}
                if rest:
                    c.bad('order', inst, r.fn.loc(n), 'the thread %s here with `%s` held' % (what, '`, `'.join(sorted(rest))))
            for name, h, e in r.calls:
                to = name if isinstance(name, tuple) else (K.name, name)
                if not h or not isinstance(name, tuple) and name in K.entry and K.entry[name]:
                    continue
                for x in h:
                    for t in takes.get(to, ()):
                        if t == (K.name, x):
                            c.bad('order', inst, r.fn.loc(e), '`%s` is taken by %s, which is called here with it held: the thread waits for itself' % (x, to[1]))
                        edges.setdefault(((K.name, x), t), (r, e))
                if to in blocks:
                    c.bad('order', inst, r.fn.loc(e), '%s %s, and is called here with `%s` held' % (to[1], blocks[to], '`, `'.join(sorted(h))))
    for (a, b), (r, n) in edges.items():
        if (b, a) in edges and a != b:
            c.bad('order', '%s/%s' % (a[1], b[1]), r.fn.loc(n), '`%s` is taken here with `%s` held, and elsewhere the other way round' % (b[1], a[1]))


def holds(conds, pred):
    """Whether the conditions a statement is under contain one for which pred holds."""
    def conj(e, pos):
        e = strip(e)
        while e['k'] == 'un' and e['op'] == '!':
            e, pos = strip(e['e']), not pos
        if e['k'] == 'bin' and (e['op'] == '&&' and pos or e['op'] == '||' and not pos):
            yield from conj(e['a'], pos)
            yield from conj(e['b'], pos)
        else:
            yield e, pos
    return any(pred(x, p) for e, pos in conds for x, p in conj(e, pos))


def pool(c, K):
    """The class with a queue of tasks that threads take from."""
    qs = [m for m, t in K.fields.items() if 'std::function<' in t and re.search(r'queue|deque|list|vector', t)]
    if not qs:
        return False
    q = qs[0]
    runs = [r for r in K.runs if r.tasks]
    inst = K.name
    c.ob('pool', inst)
    # the flag: set by constants, looked at by those that wait for the work to be done
    waited = {m for cv, ps in K.P.items() for P, ms, f, n in ps for m in ms if q not in ms}
    flags = {m for r in K.runs for m, what, conds, n, held, sec in r.sets if what[0] == 'const' and m in waited}
    for r in runs:
        for n, held, x, sec in r.tasks:
            if held & K.mutexes:
                c.bad('pool', inst + ':run', r.fn.loc(n), 'the task is run with `%s` held: no other thread can run or submit a task' % '`, `'.join(sorted(held)))
            # the counter of running tasks
            ups = [s for s in r.sets if s[1][0] == 'up' and K.fields.get(s[0], '').replace('unsigned ', '') in ('int', 'long')]
            downs = [s for s in r.sets if s[1][0] == 'down' and K.fields.get(s[0], '').replace('unsigned ', '') in ('int', 'long')]
            cnt = {s[0] for s in ups} | {s[0] for s in downs}
            takes = [s for s in r.sets if s[0] == q and s[1][0] == 'shrink']
            pos = {id(y): i for i, y in enumerate(order(r.body))}
            at = pos.get(id(n), 0)
            for m in cnt:
                u = [s for s in ups if s[0] == m and pos.get(id(s[3]), 1 << 30) < at]
                d = [s for s in downs if s[0] == m and pos.get(id(s[3]), -1) > at]
                if not u:
                    c.bad('pool', inst + ':count', r.fn.loc(n), '`%s` is not raised before the task is run: the work looks done while it is running' % m)
                elif takes and not any(a[5] == b[5] for a in u for b in takes):
                    c.bad('pool', inst + ':count', r.fn.loc(u[0][3]), '`%s` is raised in another critical section than the one in which the task is taken: in between no task seems to be there' % m)
                if not d:
                    c.bad('pool', inst + ':count', r.fn.loc(n), '`%s` is not lowered after the task was run: the work never looks done' % m)
                # what the task holds is let go before the count says it is done
                blk = None
                v = x.get('d') if x['k'] == 'ref' else None
                for b in walk(r.body):
                    if b['k'] == 'blk' and any(y['k'] == 'decl' and any(w.get('d') == v for w in y['b'] if isinstance(w, dict)) for y in b['b'] if isinstance(y.get('b'), list)):
                        blk = b
                inside = {id(y) for y in order(blk)} if blk is not None else set()
                for s in d:
                    if id(s[3]) in inside and v is not None and not cleared(blk, v, n, s[3]):
                        c.bad('pool', inst + ':release', r.fn.loc(s[3]), 'the task still holds what it was given when `%s` says that it is done' % m)
            if not cnt:
                c.bad('pool', inst + ':count', r.fn.loc(n), 'tasks that are running are not counted: the work looks done while they run')
            for f in flags:
                for m, what, conds, node, held2, sec2 in r.sets:
                    if m != f or what != ('const', final(K, f)):
                        continue
                    loc = local_conds(r, conds)
                    if not holds(loc, lambda e, p: e['k'] == 'call' and shortname(e.get('f') or '') == 'empty' and own_member(e['o']) == q and p or size0(e, p, q)):
                        c.bad('pool', inst + ':done', r.fn.loc(node), '`%s` is set though tasks may be waiting in `%s`' % (f, q))
                    for m2 in cnt:
                        if not holds(loc, lambda e, p: zero(e, p, m2)):
                            c.bad('pool', inst + ':done', r.fn.loc(node), '`%s` is set though tasks may be running (`%s`)' % (f, m2))
    # a submitted task makes the work undone, in the critical section in which it is put in the queue
    for r in K.runs:
        for m, what, conds, n, held, sec in r.sets:
            if m == q and what[0] == 'grow':
                for f in flags:
                    if not any(s[0] == f and s[1][0] == 'const' and s[1][1] != final(K, f) and s[5] == sec for s in r.sets):
                        c.bad('pool', inst + ':submit', r.fn.loc(n), 'a task is put into `%s`, and `%s` is not changed with it: the work looks done' % (q, f))
    # started with all they use made
    for f in K.special:
        for i in f.d.get('inits') or []:
            if any(x['k'] == 'lambda' for x in walk(i.get('e'))) and any(tname(x.get('t')) == 'std::thread' for x in walk(i.get('e'))):
                names = list(K.fields)
                later = names[names.index(i['n']) + 1:] if i['n'] in names else []
                if later:
                    c.bad('pool', inst + ':start', '%s:%d' % (f.file, f.line), 'threads are started while `%s` is made, before `%s`' % (i['n'], '`, `'.join(later)))
    for f in K.special:
        if shortname(f.name).startswith('~'):
            c.ob('pool', inst + ':end')
            r = next(x for x in K.runs if x.fn is f)
            pos = {id(y): i for i, y in enumerate(order(f.body))}
            waiters = {x.name for x in K.runs if x.waits and x.name not in {y.name for y in runs}}
            first = [pos.get(id(e), 1 << 30) for name, h, e in r.calls if name in waiters] + [pos.get(id(w[1]), 1 << 30) for w in r.waits]
            stop = [pos.get(id(s[3]), 1 << 30) for s in r.sets if any(s[0] in ms for ps in K.P.values() for P, ms, g, x in ps)]
            if stop and waiters and not (first and min(first) < min(stop)):
                c.bad('pool', inst + ':end', f.loc(r.sets[0][3]), 'the threads are told to stop before the tasks that were submitted are done')
            js = [n for what, h, n, let in r.blocking if 'thread' in what]
            if not js and any('std::thread' in t for t in K.fields.values()):
                c.bad('pool', inst + ':end', '%s:%d' % (f.file, f.line), 'the threads are not waited for before what they use is gone')
    return True


def cleared(blk, v, task, down):
    """The task variable is emptied between the run and the count."""
    on = False
    for x in order(blk):
        if x is task:
            on = True
        if x is down:
            return False
        if on and x['k'] == 'opcall' and x['op'] == '=' and strip(x['a'][0]).get('d') == v:
            return True
    return False


def local_conds(r, conds):
    return conds


def size0(e, p, q):
    return e['k'] == 'bin' and e['op'] in ('==', '!=') and any(strip(e[s])['k'] == 'call' and shortname(strip(e[s]).get('f') or '') == 'size' and own_member(strip(e[s])['o']) == q for s in 'ab') and p == (e['op'] == '==')


def zero(e, p, m):
    if e['k'] == 'mem' and own_member(e) == m:
        return not p
    if e['k'] == 'bin':
        for a, b, flip in (('a', 'b', False), ('b', 'a', True)):
            x, y = strip(e[a]), strip(e[b])
            if x['k'] == 'mem' and own_member(x) == m and y['k'] == 'int':
                op = e['op'] if not flip else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(e['op'], e['op'])
                v = int(y['v'])
                return p and (op, v) in (('==', 0), ('<=', 0), ('<', 1)) or not p and (op, v) in (('!=', 0), ('>', 0), ('>=', 1))
    return False


def final(K, f):
    """The value of the flag that ends the wait for it."""
    for cv, ps in K.P.items():
        for P, ms, g, n in ps:
            if f in ms:
                for v in (1, 0):
                    if ev3(P, f, ('const', v)) is False:
                        return v
    return 1


# ---- work given to a pool
def submits(prog):
    for f in prog.funcs:
        if f.body is None or f.dep or '_test' in f.file or f.name.startswith('k2::ThreadPool'):
            continue
        ss = [n for n in walk(f.body) if n['k'] == 'call' and shortname(n.get('f') or n.get('n') or '') == 'SubmitTask']
        if ss:
            yield f, ss


class Paths:
    """Between a task being submitted and all tasks being waited for."""

    def __init__(self, f):
        self.f = f
        self.open = set()
        self.left = []
        self.during = []        # (expression, tasks that may be running)
        self.events = []

    def st(self, n):
        if n is None:
            return
        k = n['k']
        if k == 'blk':
            for x in n['b']:
                self.st(x)
                if x['k'] in ('ret', 'throw'):
                    return
        elif k == 'if':
            self.ev(n['c'])
            s = set(self.open)
            self.st(n['t'])
            a = self.open if not ends(n['t']) else set()
            self.open = set(s)
            self.st(n.get('f'))
            self.open = (self.open if n.get('f') is None or not ends(n['f']) else set()) | a
        elif k in ('while', 'for', 'do', 'range'):
            for x in ('i', 'c'):
                if isinstance(n.get(x), dict):
                    (self.st if n[x]['k'] == 'decl' else self.ev)(n[x])
            for _ in range(2):
                s = set(self.open)
                self.st(n['b'])
                if n.get('s') is not None:
                    self.ev(n['s'])
                self.open |= s if k != 'do' else set()
        elif k == 'ret':
            self.ev(n.get('e'))
            if self.open:
                self.left.append((n, set(self.open)))
            self.open = set()
        elif k == 'decl':
            for v in n['b'] if isinstance(n.get('b'), list) else []:
                self.ev(v.get('i'))
        elif k in ('switch',):
            self.ev(n['c'])
            self.st(n['b'])
        elif k in ('case', 'default', 'within', 'try', 'label'):
            self.st(n.get('b'))
        else:
            self.ev(n)

    def ev(self, e):
        if e is None:
            return
        for n in walk(e):
            if n['k'] == 'call':
                name = shortname(n.get('f') or n.get('n') or '')
                if name == 'WaitAllTasksFinished':
                    self.open = set()
                elif name == 'SubmitTask':
                    for o in self.open:
                        self.during.append((n, {o}))
                    self.open.add(id(n))
                    self.events.append(n)
        if self.open and not any(x['k'] == 'call' and shortname(x.get('f') or x.get('n') or '') == 'SubmitTask' for x in walk(e)):
            self.during.append((e, set(self.open)))


def ends(n):
    if n is None:
        return False
    if n['k'] in ('ret', 'throw'):
        return True
    if n['k'] == 'blk' and n['b']:
        return ends(n['b'][-1])
    return False


class Effects:
    """Members of the class that running code reads and changes."""

    def __init__(self, prog, A, cls):
        self.prog, self.A, self.cls = prog, A, cls
        self.rec = prog.records.get(cls) or {'fields': []}
        self.fields = {f['n']: f['t'] for f in self.rec['fields']}
        self.memo = {}
        self.byname = {}
        for f in prog.funcs:
            if f.body is not None and not f.dep and (f.d.get('cls') == cls or f.name.startswith(cls + '::')):
                self.byname.setdefault(f.name, []).append(f)

    def of(self, n, self_vars=(), stop=None, depth=0):
        """(read, written): {member: node}."""
        rd, wr = {}, {}
        if depth > 14:
            return rd, wr
        ptr = {}            # local pointers into a member's elements, that may be written through

        def mem(e):
            e = strip(e)
            while e is not None:
                if e['k'] == 'mem':
                    o = strip(e['o']) if e.get('o') is not None else None
                    if o is None or o['k'] == 'this' or o['k'] == 'ref' and o.get('d') in self_vars:
                        return e['n'] if e['n'] in self.fields else None
                    e = o
                elif e['k'] == 'idx':
                    e = strip(e['a'])
                elif e['k'] == 'opcall' and e['a'] and e['op'] in ('[]', '*', '->'):
                    e = strip(e['a'][0])
                elif e['k'] == 'un' and e['op'] in ('*', '&'):
                    e = strip(e['e'])
                elif e['k'] == 'call' and e.get('o') is not None and shortname(e.get('f') or e.get('n') or '') in ('Data', 'data', 'get', 'back', 'front', 'at', 'RowSplits', 'RowIds', 'Range', 'Arange', 'begin', 'end', 'values'):
                    e = strip(e['o'])
                elif e['k'] == 'ref' and e.get('d') in ptr:
                    return ptr[e['d']]
                else:
                    return None
            return None

        for x in order(n):
            if x['k'] == 'decl' and isinstance(x.get('b'), list):
                for v in x['b']:
                    if isinstance(v, dict) and v.get('i') is not None:
                        m = mem(v['i'])
                        t = v.get('t', '')
                        if m and (t.rstrip('const ').endswith('*') or t.endswith('&') or 'Array' in t or 'Ragged' in t):
                            ptr[v['d']] = m
            elif x['k'] == 'range' and x.get('v') is not None:
                pass
            if x['k'] == 'mem' and mem(x) == x['n']:
                rd.setdefault(x['n'], x)
            if x['k'] == 'bin' and x['op'] in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^='):
                m = mem(x['a'])
                if m and not (strip(x['a'])['k'] == 'ref'):
                    wr.setdefault(m, x)
            elif x['k'] == 'un' and x['op'] in ('++', '--'):
                m = mem(x['e'])
                if m and strip(x['e'])['k'] != 'ref':
                    wr.setdefault(m, x)
            elif x['k'] == 'opcall' and x['op'] in ('=', '+=', '-='):
                m = mem(x['a'][0])
                if m:
                    wr.setdefault(m, x)
            elif x['k'] == 'call':
                f = x.get('f') or ''
                name = shortname(f or x.get('n') or '')
                o = strip(x['o']) if x.get('o') is not None else None
                m = mem(o) if o is not None else None
                if m and name in ('push_back', 'emplace_back', 'resize', 'Resize', 'clear', 'pop_back', 'insert', 'erase', 'swap', 'assign', 'emplace', 'reserve'):
                    wr.setdefault(m, x)
                # a function of the class
                g = None
                if f.startswith(self.cls + '::') and f in self.byname:
                    g = self.byname[f]
                sv = set()
                if g:
                    for h in g:
                        if not (o is None or o['k'] == 'this' or o['k'] == 'ref' and o.get('d') in self_vars) and o is not None:
                            continue
                        for a, p in zip(x['a'], h.params):
                            y = strip(a)
                            if y is not None and (y['k'] == 'this' or y['k'] == 'ref' and y.get('d') in self_vars):
                                sv.add(p['d'])
                        key = (id(h), tuple(sorted(sv)))
                        if key not in self.memo:
                            self.memo[key] = ({}, {})
                            self.memo[key] = self.of(h.body, sv, stop, depth + 1)
                        a, b = self.memo[key]
                        for k2 in a:
                            rd.setdefault(k2, x)
                        for k2 in b:
                            wr.setdefault(k2, x)
        return rd, wr


WAITS = ('Wait', 'acquire', 'try_acquire')
SENDS = ('Signal', 'release')
CHANGE = ('push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'push_front')


def semaphore_call(x, sems, names):
    return x['k'] == 'call' and x.get('o') is not None and shortname(x.get('f') or x.get('n') or '') in names and strip(x['o'])['k'] == 'mem' and strip(x['o'])['n'] in sems


def reaches(E, n, self_vars=(), seen=None):
    """(body, variables that stand for this) of the functions of the class run by n, from the outside in."""
    seen = seen if seen is not None else set()
    for x in order(n):
        if x['k'] == 'call':
            for h in E.byname.get(x.get('f') or '', ()):
                if id(h) in seen:
                    continue
                seen.add(id(h))
                sv = {p['d'] for a, p in zip(x['a'], h.params) if strip(a)['k'] == 'this' or strip(a)['k'] == 'ref' and strip(a).get('d') in self_vars}
                yield h, sv
                yield from reaches(E, h.body, sv, seen)


def handshake(prog, E, f, body, m, sems):
    """Why the use of m at the same time is not in order; None if it is."""
    # the task: waits for a semaphore before it uses m, and tells another after
    hs = [(None, body, set())] + [(h, h.body, sv) for h, sv in reaches(E, body)]
    at = next(((h, b, sv) for h, b, sv in hs if any(semaphore_call(x, sems, WAITS) for x in walk(b))), None)
    main_wait = [x for x in walk(f.body) if semaphore_call(x, sems, SENDS)]
    if at is None or not main_wait:
        return f.loc(f.body), 'nothing makes one wait for the other'
    h, b, sv = at
    loc = (h or f).loc

    def uses(x):
        rd, wr = E.of(x, sv)
        return m in rd or m in wr

    def block(n):
        """The innermost block with the wait in it."""
        for q in walk(n):
            if q['k'] == 'blk' and any(direct(s, WAITS) for s in q['b']):
                return q
        return None

    def direct(s, names):
        return s['k'] not in ('blk', 'for', 'while', 'if', 'do', 'range', 'switch') and any(semaphore_call(x, sems, names) for x in walk(s))
    q = block(b)
    if q is None:
        return None
    state = 'before'
    for s in q['b']:
        if direct(s, WAITS):
            state = 'in'
        elif direct(s, SENDS):
            state = 'after'
        elif state != 'in' and uses(s):
            return loc(s), 'the task uses it %s' % ('before it is told that it may' if state == 'before' else 'after it said that it is done')
    inside = {id(x) for x in walk(q)}
    for x in order(b):
        if id(x) not in inside and x['k'] == 'mem' and x['n'] == m and own(x, sv):
            return loc(x), 'the task uses it without being told that it may'
    # the function: what it adds is there before the task is told
    for lp in walk(f.body):
        if lp['k'] not in ('for', 'while', 'do', 'range'):
            continue
        xs = list(order(lp['b']))
        send = [i for i, x in enumerate(xs) if semaphore_call(x, sems, SENDS)]
        adds = [i for i, x in enumerate(xs) if x['k'] == 'call' and x.get('o') is not None and own_member(x['o']) == m and shortname(x.get('f') or x.get('n') or '') in CHANGE]
        if send and adds and any(i > send[0] for i in adds):
            i = next(i for i in adds if i > send[0])
            return f.loc(xs[i]), 'the task is told that it may go on before what it needs is added'
    # growing it does not move what the task uses
    t = E.fields.get(m, '')
    if t.startswith('std::vector<'):
        pos = {id(x): i for i, x in enumerate(order(f.body))}
        grow = [x for x in walk(f.body) if x['k'] == 'call' and x.get('o') is not None and own_member(x['o']) == m and shortname(x.get('f') or x.get('n') or '') in CHANGE]
        res = [x for s in f.body['b'] for x in walk(s) if s['k'] not in ('if', 'for', 'while', 'do') and x['k'] == 'call' and x.get('o') is not None and own_member(x['o']) == m and shortname(x.get('f') or x.get('n') or '') == 'reserve']
        if grow:
            first = min(grow, key=lambda x: pos[id(x)])
            if not [x for x in res if pos[id(x)] < pos[id(first)]]:
                return f.loc(first), 'adding to it moves the elements the task uses, as no room is reserved'
            have, need = linear(res[0]['a'][0], f), total(f.body, m, f)
            if have is not None and need is not None:
                d = {k: need.get(k, 0) - have.get(k, 0) for k in set(need) | set(have)}
                if all(v == 0 for k, v in d.items() if k) and d.get('', 0) > 0:
                    return f.loc(res[0]), 'room is reserved for %d fewer elements than are added, and adding more moves those the task uses' % d['']
    # one wait in the task for each time it is told
    for lp in walk(b):
        if lp['k'] not in ('for', 'range') or not any(x is q for x in walk(lp)):
            continue
        over = [own_member(x['o']) for x in walk(lp.get('c') or lp.get('r') or {'k': '?'}) if x['k'] == 'call' and x.get('o') is not None and shortname(x.get('f') or '') == 'size']
        told = []
        for c1 in walk(f.body):
            if c1['k'] == 'if' and any(semaphore_call(x, sems, SENDS) for x in walk(c1['t'])):
                told += [own_member(x) for x in walk(c1['c']) if x['k'] in ('idx', 'opcall', 'mem') and own_member(x)]
        for y in [o for o in over if o]:
            for z in set(told) - {m}:
                for blk in walk(f.body):
                    if blk['k'] != 'blk':
                        continue
                    pushes = [s for s in blk['b'] if s['k'] == 'call' and s.get('o') is not None and own_member(s['o']) == y and shortname(s.get('f') or s.get('n') or '') in CHANGE]
                    marks = [s for s in blk['b'] if s['k'] in ('bin', 'opcall') and s['op'] == '=' and own_member(s['a'] if s['k'] == 'bin' else s['a'][0]) == z]
                    if len(pushes) != len(marks) and (pushes or marks):
                        return f.loc((pushes or marks)[0]), 'the task waits once for each of `%s`, and is told once for each of `%s`, which are not set together' % (y, z)
    return None


def own(x, sv):
    o = strip(x['o']) if x.get('o') is not None else None
    return o is None or o['k'] == 'this' or o['k'] == 'ref' and o.get('d') in sv


def linear(e, f, depth=0):
    """A sum of names and numbers."""
    e = strip(e)
    if e is None or depth > 8:
        return None
    if e['k'] == 'int':
        return {'': int(e['v'])}
    if e['k'] == 'bin' and e['op'] in '+-':
        a, b = linear(e['a'], f, depth + 1), linear(e['b'], f, depth + 1)
        if a is None or b is None:
            return None
        s = 1 if e['op'] == '+' else -1
        return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(a) | set(b)}
    if e['k'] == 'ref':
        for n in walk(f.body):
            if n['k'] == 'decl' and isinstance(n.get('b'), list):
                for v in n['b']:
                    if v.get('d') == e['d'] and v.get('i') is not None:
                        x = strip(v['i'])
                        if x['k'] in ('mem', 'ref', 'int', 'bin'):
                            return linear(x, f, depth + 1)
        return {e['n']: 1}
    if e['k'] == 'mem':
        return {text(e): 1}
    return None


def total(n, m, f):
    """How many elements are added to m."""
    if n is None:
        return {}
    k = n['k']

    def plus(*vs):
        if None in vs:
            return None
        return {x: sum(v.get(x, 0) for v in vs) for x in set(x for v in vs for x in v)}
    if k == 'blk':
        r = {}
        for x in n['b']:
            r = plus(r, total(x, m, f))
            if r is None:
                return None
        return r
    if k == 'if':
        a, b = total(n['t'], m, f), total(n.get('f'), m, f)
        if a is None or b is None:
            return None
        if set(a) <= {''} and set(b) <= {''}:
            return {'': max(a.get('', 0), b.get('', 0))}
        return None
    if k in ('for', 'while', 'do', 'range'):
        b = total(n['b'], m, f)
        if b == {} or b is not None and not any(b.values()):
            return {}
        if k != 'for' or b is None or not set(b) <= {''}:
            return None
        c, i = strip(n['c']), n.get('i')
        if c['k'] != 'bin' or c['op'] not in ('<', '<=') or i is None or i['k'] != 'decl' or strip(c['a']).get('d') != i['b'][0]['d']:
            return None
        hi, lo = linear(c['b'], f), linear(i['b'][0]['i'], f)
        if hi is None or lo is None:
            return None
        d = {x: hi.get(x, 0) - lo.get(x, 0) for x in set(hi) | set(lo)}
        d[''] = d.get('', 0) + (1 if c['op'] == '<=' else 0)
        return {x: v * b.get('', 0) for x, v in d.items()}
    return {'': sum(1 for x in walk(n) if x['k'] == 'call' and x.get('o') is not None and own_member(x['o']) == m and shortname(x.get('f') or x.get('n') or '') in CHANGE)}


def once(c, prog):
    """Statics that are filled in when they are first used: by one thread only."""
    for f in prog.funcs:
        if f.body is None or f.dep or '_test' in f.file:
            continue
        stat = {v['d']: v for n in walk(f.body) if n['k'] == 'decl' and isinstance(n.get('b'), list) for v in n['b'] if v.get('static') and not v.get('tls') and not v['t'].startswith('const ')}
        if not stat:
            continue
        safe = {id(y) for n in walk(f.body) if n['k'] == 'call' and shortname(n.get('f') or '') == 'call_once' for a in n['a'] for y in walk(a)}
        locked = any(n['k'] == 'decl' and any(str(v.get('t')).startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')) for v in n['b']) for n in walk(f.body) if n['k'] == 'decl' and isinstance(n.get('b'), list))
        for d, v in stat.items():
            inst = '%s:%s' % (f.name.split('::', 1)[-1], v['n'])
            if re.search(r'mutex|once_flag|atomic', v['t']):
                continue
            c.ob('once', inst)
            for x in walk(f.body):
                if x['k'] in ('bin', 'opcall') and x['op'] == '=' and id(x) not in safe and not locked:
                    l = strip(x['a'] if x['k'] == 'bin' else x['a'][0])
                    if l['k'] == 'ref' and l.get('d') == d:
                        c.bad('once', inst, f.loc(x), '`%s` is one for all threads, and two of them may set it at the same time' % v['n'])


def globals_(c, prog):
    """Objects that outlive a function and are changed by a task, with no copy per thread."""
    byname = {}
    for f in prog.funcs:
        if f.body is not None and not f.dep:
            byname.setdefault(f.name, []).append(f)
    seen, todo = set(), []
    for f, ss in submits(prog):
        for n in ss:
            todo += [x['b'] for a in n['a'] for x in walk(a) if x['k'] == 'lambda']
    run = []
    while todo:
        b = todo.pop()
        for x in walk(b):
            g = x.get('f')
            names = [g] if isinstance(g, str) and x['k'] in ('call', 'ctor', 'opcall') else []
            if x['k'] == 'ctor':
                names.append('%s::~%s' % (g.rsplit('::', 1)[0], shortname(g)) if isinstance(g, str) and '::' in g else '')
            for s in names:
                for h in byname.get(s, ()):
                    if id(h) not in seen:
                        seen.add(id(h))
                        run.append(h)
                        todo.append(h.body)
    c.analysed['functions that tasks run'] = len(run)
    for f in run:
        stat = {v['d']: v for n in walk(f.body) if n['k'] == 'decl' and isinstance(n.get('b'), list) for v in n['b'] if v.get('static')}
        once = {id(y) for n in walk(f.body) if n['k'] == 'call' and shortname(n.get('f') or '') == 'call_once' for a in n['a'] for y in walk(a)}

        def thing(e):
            e = strip(e)
            while e is not None and e['k'] in ('mem', 'idx', 'opcall'):
                e = strip(e.get('o') if e['k'] == 'mem' else e['a'] if e['k'] == 'idx' else e['a'][0])
            if e is None or e['k'] != 'ref':
                return None
            if e.get('d') in stat:
                v = stat[e['d']]
                return v['n'], v['t'], v.get('tls')
            if e.get('dk') == 'global':
                g = prog.gvars.get(e['n']) or next((x for n, x in prog.gvars.items() if n.endswith('::' + e['n'])), None)
                if g is not None and not g['file'].endswith('fake_cuda.h'):
                    return e['n'], g['t'], g.get('tls')
            return None
        for x in walk(f.body):
            if id(x) in once:
                continue
            t = None
            if x['k'] == 'bin' and x['op'] in ('=', '+=', '-=', '|=') or x['k'] == 'opcall' and x['op'] in ('=', '+=', '-=', '()') and not x.get('const'):
                t = thing(x['a'] if x['k'] == 'bin' else x['a'][0])
            elif x['k'] == 'un' and x['op'] in ('++', '--'):
                t = thing(x['e'])
            elif x['k'] == 'call' and x.get('o') is not None and not x.get('const') and not x.get('arrow'):
                t = thing(x['o'])
            if t is None or t[1].startswith('const ') or re.search(r'mutex|once_flag|atomic|condition_variable', t[1]):
                continue
            c.ob('global', '%s:%s' % (f.name.split('::', 1)[-1], t[0]))
            if not t[2]:
                c.bad('global', '%s:%s' % (f.name.split('::', 1)[-1], t[0]), f.loc(x), '`%s` is one for all threads, and is changed here by a task that runs while others use it' % t[0])


def main(c):
    prog = Cxx((CORE, BIND, TORCHLIB))
    recs = classes(prog)
    Ks = {}
    for n, r in recs.items():
        Ks[n] = Class(prog, r, set(recs))
    pools = 0
    for K in Ks.values():
        lockset(c, K)
        waits(c, K)
        pools += bool(pool(c, K))
    locks_order(c, Ks, prog)
    A = None
    for f, ss in submits(prog):
        inst = f.name.split('::', 1)[-1]
        p = Paths(f)
        p.st(f.body)
        c.ob('submit', inst)
        if p.open:
            p.left.append((f.body, p.open))
        for n, o in p.left:
            c.bad('submit', inst, f.loc(n), 'the function may end here while a task submitted at line %d is running with its variables' % min(x['l'] for x in ss if id(x) in o))
        cls = f.d.get('cls') or ''
        E = Effects(prog, A, cls)
        eff = {}
        for n in ss:
            l = next((x for a in n['a'] for x in walk(a) if x['k'] == 'lambda'), None)
            if l is not None:
                eff[id(n)] = E.of(l['b'])
        sems = {m for m, t in E.fields.items() if 'emaphore' in t}
        shared = {}
        for e, tasks in p.during:
            mine = eff.get(id(e)) or E.of(e)
            for t in tasks:
                other = eff.get(t)
                if other is None or id(e) == t:
                    continue
                c.ob('share', inst)
                for a, b in ((mine, other), (other, mine)):
                    for m, n in a[1].items():
                        if m not in sems and (m in b[0] or m in b[1]):
                            shared.setdefault((m, t), []).append((e, n, a is mine))
        for (m, t), es in sorted(shared.items(), key=str):
            e, n, mine = es[0]
            task = next(x for x in ss if id(x) == t)
            body = next(x for a in task['a'] for x in walk(a) if x['k'] == 'lambda')['b']
            r = handshake(prog, E, f, body, m, sems)
            if r:
                c.bad('share', '%s:%s' % (inst, m), r[0], '`%s` is used by this function and by the task submitted at line %d at the same time: %s' % (m, task['l'], r[1]))
    globals_(c, prog)
    once(c, prog)
    c.floor('guarded', 5)
    c.floor('wait', 2)
    c.floor('submit', 2)
    c.analysed.update({'classes with a mutex': len(Ks), 'their methods': sum(len(K.runs) for K in Ks.values())})


if __name__ == '__main__':
    harness.main('C17', 'lockset, condition-variable and lock-order analysis of every class with a mutex; effects of tasks that run at the same time', main)
