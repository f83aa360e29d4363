"""Hash-consed value terms shared by the Python and the C++ front ends.

A term denotes the abstract value of an expression: where it comes from
(parameters, attributes, calls) and under which conditions (gated phi nodes).
Nothing here executes code of the repository.
"""
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'args', 'id', '_deps', '_str')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, *args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, T) else
                        (type(a).__name__, a) if not isinstance(a, tuple) else
                        ('tt', tuple(x.id if isinstance(x, T) else
                                     (type(x).__name__, x if not isinstance(x, tuple)
                                      else tuple(y.id if isinstance(y, T) else (type(y).__name__, y) for y in x))
                                     for x in a))
                        for a in args)
    t = T._tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.id = op, args, T._n
        t._deps = None
        t._str = None
        T._n += 1
        T._tab[key] = t
    return t


def const(v):
    return mk('const', type(v).__name__, v if isinstance(v, (int, float, str, bytes, bool, type(None))) else repr(v))


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def glob(n):
    return mk('glob', n)


def param(n):
    return mk('param', n)


def attr(b, n):
    if b.op == 'phi':
        return phi(b.args[0], attr(b.args[1], n), attr(b.args[2], n))
    return mk('attr', b, n)


def phi(c, a, b):
    if a is b:
        return a
    if is_const(c):
        return a if cval(c) else b
    while c.op == 'not':
        c = c.args[0]
        a, b = b, a
    a2 = assume(a, {c: True}) if has_phi(a, c) else a
    b2 = assume(b, {c: False}) if has_phi(b, c) else b
    if a2 is b2:
        return a2
    if c.op in ('and', 'or') and len(c.args) == 2:
        # canonical nesting on atoms, so that a nested if and a conjunction agree
        x, y = c.args
        if c.op == 'and':
            return phi(x, phi(y, a2, b2), b2)
        return phi(x, a2, phi(y, a2, b2))
    if a2 is TRUE and b2 is FALSE:
        return c if is_boolish(c) else mk('phi', c, a2, b2)
    if a2 is FALSE and b2 is TRUE:
        return neg(c)
    return mk('phi', c, a2, b2)


def has_phi(t, c):
    return c in phiconds(t)


_pc_cache = {}


def phiconds(t):
    r = _pc_cache.get(t.id)
    if r is None:
        s = set()
        if t.op == 'phi':
            s.add(t.args[0])
        for a in subterms1(t):
            s |= phiconds(a)
        r = frozenset(s)
        _pc_cache[t.id] = r
    return r


def subterms1(t):
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T):
                    out.append(x)
                elif isinstance(x, tuple):
                    out.extend(y for y in x if isinstance(y, T))
    return out


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(subterms1(x))
    return seen


def is_boolish(t):
    return t.op in ('not', 'and', 'or', 'eq', 'lt', 'is', 'in', 'hasattr', 'isinstance', 'truth')


def neg(t):
    if t.op == 'not':
        return t.args[0]
    if is_const(t):
        return const(not cval(t))
    if t.op == 'and':
        return mk('or', *[neg(a) for a in t.args])
    if t.op == 'or':
        return mk('and', *[neg(a) for a in t.args])
    return mk('not', t)


def conj(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == 'and':
            out.extend(t.args)
        else:
            out.append(t)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    r = out[-1]
    for x in reversed(out[:-1]):
        r = mk('and', x, r)
    return r


def disj(*ts):
    return neg(conj(*[neg(t) for t in ts]))


def rebuild(t, f):
    """Rebuild t with f applied to the direct subterms."""
    def g(a):
        if isinstance(a, T):
            return f(a)
        if isinstance(a, tuple):
            return tuple(g(x) for x in a)
        return a
    args = [g(a) for a in t.args]
    if t.op == 'phi':
        return phi(*args)
    if t.op == 'attr':
        return attr(*args)
    if t.op == 'not':
        return neg(args[0])
    if t.op == 'and':
        return conj(*args)
    if t.op == 'or':
        return disj(*args)
    return mk(t.op, *args)


def subst(t, m, memo=None):
    """Substitute terms by terms."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        if not subterms1(t):
            r = t
        else:
            r = rebuild(t, lambda x: subst(x, m, memo))
        memo[t] = r
    return r


def assume(t, m, memo=None):
    """Specialise t under a truth assignment of atoms (positive terms)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = TRUE if m[t] else FALSE
        # a non boolean atom used as a value stays itself
        if not is_boolish(t):
            r = t
    elif t.op == 'phi':
        c = t.args[0]
        v = truth_under(c, m)
        if v is True:
            r = assume(t.args[1], m, memo)
        elif v is False:
            r = assume(t.args[2], m, memo)
        else:
            r = rebuild(t, lambda x: assume(x, m, memo))
    elif not subterms1(t):
        r = t
    else:
        r = rebuild(t, lambda x: assume(x, m, memo))
    memo[t] = r
    return r


def truth_under(c, m):
    """Truth value of condition c under atom assignment m (None: unknown)."""
    if c in m:
        return m[c]
    if is_const(c):
        return bool(cval(c))
    if c.op == 'not':
        v = truth_under(c.args[0], m)
        return None if v is None else not v
    if c.op in ('and', 'or'):
        vs = [truth_under(a, m) for a in c.args]
        if c.op == 'and':
            if False in vs:
                return False
            return True if all(v is True for v in vs) else None
        if True in vs:
            return True
        return False if all(v is False for v in vs) else None
    if c.op == 'phi':
        v = truth_under(c.args[0], m)
        if v is True:
            return truth_under(c.args[1], m)
        if v is False:
            return truth_under(c.args[2], m)
    if c.op == 'eq' and len(c.args) == 2:
        # x == k1 known true refutes x == k2
        for a, b in (c.args, c.args[::-1]):
            if is_const(b):
                for k, v in m.items():
                    if v is True and k.op == 'eq' and a in k.args:
                        o = k.args[0] if k.args[1] is a else k.args[1]
                        if is_const(o) and o is not b:
                            return False
    return None


def alts(t, pc=(), limit=64):
    """Leaves over phi nodes: list of (tuple of (atom, polarity), term)."""
    if t.op == 'phi':
        c = t.args[0]
        return (alts(t.args[1], pc + ((c, True),), limit) +
                alts(t.args[2], pc + ((c, False),), limit))
    return [(pc, t)]


def clauses(lits, limit=32):
    """DNF of a conjunction of (cond, polarity): list of frozenset of (atom, pol)."""
    out = [frozenset()]

    def mul(xs, ys):
        r = []
        for x in xs:
            for y in ys:
                z = x | y
                if any((a, not p) in z for a, p in z):
                    continue
                r.append(z)
        return r[:limit]

    def dnf(c, pol):
        if c.op == 'not':
            return dnf(c.args[0], not pol)
        if is_const(c):
            return [frozenset()] if bool(cval(c)) == pol else []
        if c.op in ('and', 'or'):
            if (c.op == 'and') == pol:
                r = [frozenset()]
                for a in c.args:
                    r = mul(r, dnf(a, pol))
                return r
            r = []
            for a in c.args:
                r += dnf(a, pol)
            return r
        if c.op == 'phi' and (is_boolish(c.args[1]) or is_const(c.args[1]) or is_boolish(c.args[2]) or is_const(c.args[2])):
            return (mul(dnf(c.args[0], True), dnf(c.args[1], pol)) +
                    mul(dnf(c.args[0], False), dnf(c.args[2], pol)))
        return [frozenset([(c, pol)])]

    for c, pol in lits:
        out = mul(out, dnf(c, pol))
    return out


def deps(t):
    """Parameters a term depends on."""
    if t._deps is None:
        s = set()
        for x in subterms(t):
            if x.op == 'param':
                s.add(x.args[0])
        t._deps = frozenset(s)
    return t._deps


def root(t, through=()):
    """Alias root: follow attr/item (and methods listed) down to the base object."""
    while True:
        if t.op in ('attr', 'item', 'elem'):
            t = t.args[0]
        else:
            return t


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return repr(t)
    if t._str is not None:
        return t._str
    if depth > 40:
        return '...'
    o, a = t.op, t.args
    d = depth + 1
    if o == 'const':
        s = repr(a[1])
    elif o in ('glob', 'param'):
        s = str(a[0]) if o == 'glob' else '$' + str(a[0])
    elif o == 'attr':
        s = show(a[0], d) + '.' + a[1]
    elif o == 'item':
        s = show(a[0], d) + '[' + show(a[1], d) + ']'
    elif o == 'call':
        s = show(a[0], d) + '(' + ', '.join([show(x, d) for x in a[1]] + [k + '=' + show(v, d) for k, v in a[2]]) + ')'
    elif o == 'phi':
        s = '(' + show(a[0], d) + ' ? ' + show(a[1], d) + ' : ' + show(a[2], d) + ')'
    elif o == 'not':
        s = '!' + show(a[0], d)
    elif o in ('and', 'or'):
        s = '(' + (' && ' if o == 'and' else ' || ').join(show(x, d) for x in a) + ')'
    elif o == 'eq':
        s = '(' + show(a[0], d) + ' == ' + show(a[1], d) + ')'
    elif o == 'lt':
        s = '(' + show(a[0], d) + ' < ' + show(a[1], d) + ')'
    elif o == 'tuple':
        s = '(' + ', '.join(show(x, d) for x in a) + ',)'
    else:
        s = o + '(' + ', '.join(show(x, d) for x in a) + ')'
    if len(s) > 4000:
        s = s[:4000] + '...'
    t._str = s
    return s


def lit_str(l):
    a, p = l
    return ('' if p else '!') + show(a)


def clause_str(c):
    return ' && '.join(sorted(lit_str(l) for l in c))
