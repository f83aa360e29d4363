"""Python front end: resolves names over /repo/k2/python/k2 and abstractly
interprets functions into events over value terms (see terms.py).

The interpretation is flow sensitive, joins at merge points with gated phi
terms, treats loops once with havocked loop variables (unrolled only for
displays of constants) and inlines functions which the reference table does
not name, so that a helper extracted from a function is seen through.
"""
import ast
import os
import re
from terms import *

REPO = os.environ.get('K2_SRC', '/repo')      # another tree may be named for testing the checks themselves
PKG = REPO + '/k2/python/k2'


class FuncInfo:
    def __init__(self, qual, node, mod, cls=None, parent=None):
        self.qual, self.node, self.mod, self.cls, self.parent = qual, node, mod, cls, parent
        self.decos = [ast.unparse(d) for d in node.decorator_list] if hasattr(node, 'decorator_list') else []

    @property
    def kind(self):
        if self.cls is None:
            return 'func'
        for d in self.decos:
            if d == 'staticmethod':
                return 'static'
            if d == 'classmethod':
                return 'classm'
            if d == 'property':
                return 'property'
            if d.endswith('.setter'):
                return 'setter'
        return 'method'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]


class ClassInfo:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.methods = {}
        self.setters = {}
        self.bases = [ast.unparse(b) for b in node.bases]
        self.consts = {}


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}      # local name -> dotted global name
        self.consts = {}     # module level name -> ast expr


class Program:
    def __init__(self, pkg=PKG):
        self.pkg = pkg
        self.modules, self.funcs, self.classes = {}, {}, {}
        for dp, dn, fn in os.walk(pkg):
            for f in sorted(fn):
                if not f.endswith('.py') or f == 'torch_version.py':
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, pkg)[:-3].replace('/', '.')
                name = 'k2' if rel == '__init__' else 'k2.' + rel
                if name.endswith('.__init__'):
                    name = name[:-9]
                src = open(p, encoding='utf-8').read()
                self.modules[name] = Module(name, p, ast.parse(src, p), src)
        for m in self.modules.values():
            self._collect(m)

    def _pkgof(self, m):
        if m.path.endswith('__init__.py'):
            return m.name
        return m.name.rsplit('.', 1)[0]

    def _imports(self, m, node, names):
        if isinstance(node, ast.Import):
            for a in node.names:
                names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ''
            if node.level:
                p = self._pkgof(m).split('.')
                p = p[:len(p) - (node.level - 1)]
                base = '.'.join(p + ([node.module] if node.module else []))
            for a in node.names:
                names[a.asname or a.name] = base + '.' + a.name

    def _collect(self, m):
        def walk(body):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imports(m, n, m.names)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = m.name + '.' + n.name
                    m.names[n.name] = q
                    self.funcs[q] = FuncInfo(q, n, m)
                elif isinstance(n, ast.ClassDef):
                    q = m.name + '.' + n.name
                    m.names[n.name] = q
                    ci = ClassInfo(q, n, m)
                    self.classes[q] = ci
                    for b in n.body:
                        if isinstance(b, ast.FunctionDef):
                            fi = FuncInfo(q + '.' + b.name, b, m, ci)
                            if fi.kind == 'setter':
                                ci.setters[b.name] = fi
                                self.funcs[q + '.' + b.name + '#set'] = fi
                            else:
                                ci.methods[b.name] = fi
                                self.funcs[fi.qual] = fi
                        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                            ci.consts[b.targets[0].id] = b.value
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            if not any('dataclass' in ast.unparse(d) for d in n.decorator_list):
                                ci.consts[b.target.id] = b.value
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = m.name + '.' + t.id
                            m.consts[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    m.names[n.target.id] = m.name + '.' + n.target.id
                    m.consts[n.target.id] = n.value
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    walk(n.body)
                    walk(getattr(n, 'orelse', []))
                    for h in getattr(n, 'handlers', []):
                        walk(h.body)
        walk(m.tree.body)

    def canon(self, dotted):
        """Follow re-exports: k2.create_fsa_vec -> k2.utils.create_fsa_vec."""
        seen = set()
        while dotted not in seen:
            seen.add(dotted)
            if dotted in self.funcs or dotted in self.classes or dotted in self.modules:
                return dotted
            parts = dotted.split('.')
            for i in range(len(parts) - 1, 0, -1):
                base = '.'.join(parts[:i])
                if base in self.modules:
                    m = self.modules[base]
                    if parts[i] in m.names:
                        dotted = '.'.join([m.names[parts[i]]] + parts[i + 1:])
                    break
        return dotted

    def loc(self, fi_or_mod, node):
        m = fi_or_mod.mod if isinstance(fi_or_mod, FuncInfo) else fi_or_mod
        return '%s:%d' % (os.path.relpath(m.path, REPO) if m.path.startswith(REPO) else m.path, getattr(node, 'lineno', 0))


class Event:
    __slots__ = ('kind', 'fn', 'args', 'kw', 'pc', 'loc', 'res', 'stack', 'caught', 'seq', 'extra')

    def __init__(self, kind, fn, args, kw, pc, loc, res=None, stack=(), extra=None):
        self.kind, self.fn, self.args, self.kw, self.pc, self.loc, self.res, self.stack = kind, fn, args, kw, pc, loc, res, stack
        self.caught = False
        self.extra = extra

    def __repr__(self):
        return '<%s %s(%s) @%s if %s>' % (self.kind, show(self.fn) if isinstance(self.fn, T) else self.fn,
                                        ', '.join([show(a) for a in self.args] + [k + '=' + show(v) for k, v in self.kw.items()]),
                                        self.loc, ' && '.join(('' if p else '!') + show(c) + '/' + k for c, p, k in self.pc))

    def cond(self, kinds=('br', 'ret', 'loop', 'try')):
        return [(c, p) for c, p, k in self.pc if k in kinds]


class Obj:
    pass


class State:
    __slots__ = ('env', 'heap', 'pc', 'alive')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc, self.alive = env, heap, pc, True

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


def merge_maps(c, a, b, deflt):
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        x, y = a.get(k), b.get(k)
        if x is None:
            x = deflt(k)
        if y is None:
            y = deflt(k)
        if x is None:
            x = mk('undef')
        if y is None:
            y = mk('undef')
        out[k] = x if x is y else phi(c, x, y)
    return out


class Closure:
    def __init__(self, fi, env):
        self.fi, self.env = fi, env


class Interp:
    def __init__(self, prog, inline=None, max_depth=12, new_inline=True, known=None, watch_attrs=()):
        self.prog = prog
        self.inline_pred = inline or (lambda q: False)
        self.known = known          # functions named in the reference table: opaque unless inline() says so
        self.max_depth = max_depth
        self.events = []
        self.counter = 0
        self.closures = {}
        self.types = {}
        self.stack = []
        self.watch_attrs = set(watch_attrs)
        self.loops = []
        self.unknowns = []
        self.appends = []
        self.literals = []       # (object, [(key or None, value)], pc): what containers are made with

    # ---- entry -------------------------------------------------------
    def run(self, qual, bind=None, types=None):
        fi = self.prog.funcs[qual]
        env = {}
        a = fi.node.args
        ps = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            ps.append(a.vararg)
        if a.kwarg:
            ps.append(a.kwarg)
        for i, x in enumerate(ps):
            t = param(x.arg)
            if bind and x.arg in bind:
                t = bind[x.arg]
            env[x.arg] = t
            if i == 0 and fi.kind in ('method', 'property', 'setter'):
                self.types[t] = fi.cls.qual
            elif x.annotation is not None:
                ty = self.anntype(fi.mod, x.annotation)
                if ty:
                    self.types[t] = ty
        if types:
            for k, v in types.items():
                self.types[param(k)] = v
        if fi.kind == 'classm':
            env[ps[0].arg] = glob(fi.cls.qual)
        st = State(env, {}, ())
        rets = self.call_body(fi, st)
        return rets

    def anntype(self, mod, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value)
            if base in ('Optional',):
                return self.anntype(mod, ann.slice)
            if base in ('List', 'list', 'typing.List'):
                e = self.anntype(mod, ann.slice)
                return ('list', e) if e else None
            return None
        try:
            s = ast.unparse(ann)
        except Exception:
            return None
        d = s.split('.')
        if d[0] in mod.names:
            q = self.prog.canon('.'.join([mod.names[d[0]]] + d[1:]))
            if q in self.prog.classes:
                return q
        return None

    def typeof(self, t):
        ty = self.types.get(t)
        if ty:
            return ty
        if t.op == 'phi':
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            return a if a == b else None
        if t.op == 'new':
            return t.args[0]
        if t.op == 'elem':
            ty = self.typeof(t.args[0])
            if isinstance(ty, tuple) and ty[0] == 'list':
                return ty[1]
        if t.op == 'call':
            f = t.args[0]
            if f.op == 'glob':
                q = f.args[0]
                if q in self.prog.classes:
                    return q
                fi = self.prog.funcs.get(q)
                if fi is not None and fi.node.returns is not None:
                    return self.anntype(fi.mod, fi.node.returns)
        return None

    # ---- functions ---------------------------------------------------
    def call_body(self, fi, st):
        """Run the body of fi in state st; returns (value, state) or None if no normal return."""
        self.stack.append(fi.qual)
        saved_loops, self.loops = self.loops, []
        pc0 = st.pc
        rets = []
        yields = []
        fr = Obj()
        fr.rets, fr.yields, fr.fi, fr.pc0 = rets, yields, fi, pc0
        old = getattr(self, 'frame', None)
        self.frame = fr
        try:
            body = fi.node.body
            if isinstance(fi.node, ast.Lambda):
                v = self.expr(body, st)
                rets.append((st, v))
                end = None
            else:
                end = self.block(body, st)
            if end is not None and end.alive:
                rets.append((end, NONE))
        finally:
            self.frame = old
            self.stack.pop()
            self.loops = saved_loops
        if not rets:
            return None
        n = len(pc0)
        acc_s, acc_v = rets[-1][0].copy(), rets[-1][1]
        for s, v in reversed(rets[:-1]):
            c = conj(*[x if p else neg(x) for x, p, k in s.pc[n:] if k in ('br', 'loop', 'try')])
            acc_v = phi(c, v, acc_v)
            acc_s.heap = self.merge_heap(c, s.heap, acc_s.heap)
        # literals established by raising branches survive when on all paths
        common = [l for l in acc_s.pc[n:] if l[2] == 'raise' and all(l in s.pc for s, _ in rets)]
        acc_s.pc = pc0 + tuple(common)
        if yields:
            acc_v = mk('gen', fi.qual, tuple(yields))
        return acc_v, acc_s

    def merge_heap(self, c, a, b):
        def dflt(k):
            if k[0] == 'itemset':
                return mk('item', k[1], k[2])
            return attr(k[0], k[1])
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            if k[0] == 'content':
                if x is None or y is None:
                    out[k] = x if y is None else y
                elif x is y or x == y:
                    out[k] = x
                else:
                    out[k] = self.merge_content(c, x, y)
            else:
                if x is None:
                    x = dflt(k)
                if y is None:
                    y = dflt(k)
                out[k] = phi(c, x, y)
        return out

    def merge_content(self, c, x, y):
        # ('exact', [terms]) or ('bag', [terms]); dict: ('dict', {..})
        if x[0] == 'dict' and y[0] == 'dict':
            if set(x[1]) == set(y[1]):
                return ('dict', {k: phi(c, x[1][k], y[1][k]) for k in x[1]}, x[2] or y[2])
            d = dict(x[1])
            for k, v in y[1].items():
                d[k] = phi(c, d[k], v) if k in d else phi(c, mk('absent'), v)
            for k in x[1]:
                if k not in y[1]:
                    d[k] = phi(c, x[1][k], mk('absent'))
            return ('dict', d, x[2] or y[2])
        if x[0] == 'exact' and y[0] == 'exact' and len(x[1]) == len(y[1]):
            return ('exact', [phi(c, p, q) for p, q in zip(x[1], y[1])])
        if 'dict' in (x[0], y[0]):
            return ('bag', [])
        items = list(x[1])
        ys = list(y[1])
        n = 0
        while n < len(items) and n < len(ys) and items[n] is ys[n]:
            n += 1
        merged = items[:n] + [phi(c, i, mk('absent')) for i in items[n:]] + [phi(c, mk('absent'), i) for i in ys[n:]]
        return ('bag', merged)

    # ---- statements --------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is None or not st.alive:
                return st
            st = self.stmt(s, st)
        return st

    def where(self, node):
        return self.prog.loc(self.frame.fi, node)

    def emit(self, kind, fn, args, kw, st, node, res=None, extra=None):
        e = Event(kind, fn, list(args), dict(kw), st.pc, self.where(node), res, tuple(self.stack), extra)
        e.seq = len(self.events)
        self.events.append(e)
        return e

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unknowns.append((type(s).__name__, self.where(s)))
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.expr(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        names = {}
        self.prog._imports(self.frame.fi.mod, s, names)
        for k, v in names.items():
            st.env[k] = glob(v)
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        fi = FuncInfo(self.frame.fi.qual + '.<locals>.' + s.name, s, self.frame.fi.mod, None, self.frame.fi)
        st.env[s.name] = self.closure(fi, st.env)
        return st

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk('localclass', self.frame.fi.qual, s.name)
        return st

    def closure(self, fi, env):
        self.counter += 1
        t = mk('fn', fi.qual, self.counter)
        self.closures[t] = Closure(fi, env)
        return t

    def s_Return(self, s, st):
        v = self.expr(s.value, st) if s.value is not None else NONE
        self.frame.rets.append((st, v))
        self.emit('return', self.frame.fi.qual, [v], {}, st, s)
        dead = st.copy()
        dead.alive = False
        return dead

    def s_Raise(self, s, st):
        if s.exc is not None and isinstance(s.exc, ast.Call):
            name = ast.unparse(s.exc.func)
        else:
            name = ast.unparse(s.exc) if s.exc is not None else 'reraise'
        self.emit('raise', name, [], {}, st, s)
        dead = st.copy()
        dead.alive = False
        dead.env['@how'] = 'raise'
        return dead

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        st2 = st.copy()
        st2.pc = st.pc + ((c, False, 'br'),)
        if c is not TRUE:
            self.emit('raise', 'AssertionError', [], {}, st2, s)
        if is_const(c) and not cval(c):
            st.alive = False
            st.env['@how'] = 'raise'
            return st
        st.pc = st.pc + ((c, True, 'raise'),) if c is not TRUE else st.pc
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, st)
                i = self.expr(t.slice, st)
                self.emit('delitem', o, [i], {}, st, s)
                self.content_del(o, i, st)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, st)
                self.emit('delattr', o, [const(t.attr)], {}, st, s)
        return st

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.expr(s.value, st)
            self.assign(s.target, v, st, s)
            ty = self.anntype(self.frame.fi.mod, s.annotation)
            if ty and not is_const(v):
                self.types.setdefault(v, ty)
        return st

    def s_AugAssign(self, s, st):
        load = ast.copy_location(type(s.target)(**{f: getattr(s.target, f) for f in s.target._fields if f != 'ctx'}, ctx=ast.Load()), s.target)
        old = self.expr(load, st)
        r = self.expr(s.value, st)
        op = type(s.op).__name__
        v = self.binop(op, old, r, inplace=True)
        self.emit('inplace', mk('iop', op), [old, r], {}, st, s)
        if isinstance(s.target, ast.Name) and st.heap.get(('content', old)) is not None and op == 'Add':
            c = st.heap[('content', old)]
            rc = self.elements(r, st)
            st.heap[('content', old)] = (('exact', c[1] + rc) if c[0] == 'exact' and rc is not None
                                         else ('bag', list(c[1]) + (rc or [mk('elem', r)])))
            return st
        self.assign(s.target, v, st, s, aug=True)
        return st

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            els = self.elements(v, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if els is not None and not star and len(els) == len(t.elts):
                for e, x in zip(t.elts, els):
                    self.assign(e, x, st, node)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, mk('rest', v, const(i)), st, node)
                    else:
                        self.assign(e, self.item(v, const(i), st), st, node)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            self.setattr(o, const(t.attr), v, st, node, aug)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            i = self.expr(t.slice, st)
            # obj.__dict__['x'] = v  is an attribute store
            if o.op == 'attr' and o.args[1] == '__dict__':
                self.emit('setattr', o.args[0], [i, v], {}, st, node, extra='raw')
                if is_const(i):
                    st.heap[(o.args[0], cval(i))] = v
                return
            self.emit('setitem', o, [i, v], {}, st, node, extra='aug' if aug else None)
            self.content_set(o, i, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def setattr(self, o, name, v, st, node, aug=False):
        self.emit('setattr', o, [name, v], {}, st, node, extra='aug' if aug else None)
        if is_const(name):
            ty = self.typeof(o)
            if isinstance(ty, str) and ty in self.prog.classes:
                ci = self.prog.classes[ty]
                if cval(name) in ci.setters and self.should_inline(ci.setters[cval(name)].qual + '#set'):
                    self.call_function(ci.setters[cval(name)], None, [o, v], {}, st, node)
                    return
            for k, x in [(c, b) for c, b in alts(o)][:8]:
                st.heap[(x, cval(name))] = v if len(alts(o)) == 1 else phi(conj(*[c if p else neg(c) for c, p in k]), v, st.heap.get((x, cval(name)), attr(x, cval(name))))

    # containers
    def content(self, o, st):
        return st.heap.get(('content', o))

    def content_set(self, o, i, v, st):
        c = self.content(o, st)
        if c is None:
            st.heap[('itemset', o, i)] = v
            return
        if c[0] == 'dict':
            if is_const(i):
                d = dict(c[1])
                d[i] = v
                st.heap[('content', o)] = ('dict', d, c[2])
            else:
                d = dict(c[1])
                d[i] = v
                st.heap[('content', o)] = ('dict', d, True)
        elif c[0] == 'exact' and is_const(i) and isinstance(cval(i), int) and -len(c[1]) <= cval(i) < len(c[1]):
            l = list(c[1])
            l[cval(i)] = v
            st.heap[('content', o)] = ('exact', l)
        else:
            st.heap[('content', o)] = ('bag', list(c[1]) + [v])

    def content_del(self, o, i, st):
        c = self.content(o, st)
        if c is not None and c[0] == 'dict' and i in c[1]:
            d = dict(c[1])
            del d[i]
            st.heap[('content', o)] = ('dict', d, c[2])

    def elements(self, v, st):
        """Exact element list of v when statically known, else None."""
        if v.op in ('tuple',):
            return list(v.args)
        c = self.content(v, st)
        if c is not None:
            if c[0] == 'exact':
                return list(c[1])
            if c[0] == 'dict' and not c[2] and all(x.op != 'phi' for x in c[1].values()):
                return list(c[1].keys())
            return None
        if v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] in ('builtins.list', 'builtins.tuple', 'builtins.sorted') and len(v.args[1]) == 1:
            e = self.elements(v.args[1][0], st)
            return e
        if v.op == 'dictitems':
            return [mk('tuple', a, b) for a, b in v.args[0]]
        if v.op == 'phi':
            a, b = self.elements(v.args[1], st), self.elements(v.args[2], st)
            if a is not None and b is not None and len(a) == len(b):
                return [phi(v.args[0], x, y) for x, y in zip(a, b)]
        if v.op == 'listv':
            return list(v.args)
        if is_const(v) and v.args[0] == 'str' and len(cval(v)) < 8:
            return None
        return None

    # control flow
    def how(self, st):
        return 'raise' if (st is not None and st.env.get('@how') == 'raise') else 'ret'

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        v = truth_under(c, self.facts(st))
        if v is True:
            return self.block(s.body, st)
        if v is False:
            return self.block(s.orelse, st)
        a, b = st.copy(), st.copy()
        a.pc = st.pc + ((c, True, 'br'),)
        b.pc = st.pc + ((c, False, 'br'),)
        a = self.block(s.body, a)
        b = self.block(s.orelse, b)
        return self.join(c, a, b, st)

    def facts(self, st):
        f = {}
        for c, p, k in st.pc:
            stack = [(c, p)]
            while stack:
                x, q = stack.pop()
                if x.op == 'not':
                    stack.append((x.args[0], not q))
                elif (x.op == 'and' and q) or (x.op == 'or' and not q):
                    stack.extend((y, q) for y in x.args)
                else:
                    f[x] = q
        return f

    def join(self, c, a, b, base):
        n = len(base.pc)
        if not a.alive and not b.alive:
            r = a.copy()
            r.alive = False
            if self.how(a) == 'raise' and self.how(b) == 'raise':
                r.env['@how'] = 'raise'
            else:
                r.env.pop('@how', None)
            return r
        if not a.alive or not b.alive:
            live, dead = (b, a) if not a.alive else (a, b)
            pol = not a.alive
            # literal (c, not pol) holds now; kind says how the other side ended
            kind = self.how(dead)
            live.pc = base.pc + ((c, not pol, kind),) + live.pc[n + 1:]
            return live
        r = State(merge_maps(c, a.env, b.env, lambda k: None), self.merge_heap(c, a.heap, b.heap), base.pc)
        keep = [l for l in a.pc[n + 1:] if l in b.pc[n + 1:]]
        r.pc = base.pc + tuple(keep)
        return r

    def assigned(self, stmts):
        s = set()
        for x in stmts:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
        return s

    def mutated(self, stmts):
        """Local names whose container the statements change."""
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    out.add(n.value.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.attr in ('append', 'add', 'update', 'extend', 'pop', 'setdefault', 'insert', 'remove', 'clear', 'discard'):
                    out.add(n.func.value.id)
        return out

    def s_For(self, s, st):
        it = self.expr(s.iter, st)
        els = self.elements(it, st)
        if els is not None and len(els) <= 64:
            brk = []
            for e in els:
                if st is None or not st.alive:
                    return st
                self.assign(s.target, e, st, s)
                lp = Obj()
                lp.breaks, lp.conts = [], []
                self.loops.append(lp)
                base = st
                st = self.block(s.body, st)
                self.loops.pop()
                if lp.breaks:
                    # loses precision: treat conditionally-broken loop as generic
                    pass
                live = [st] if st.alive else []
                outs = live + lp.conts + lp.breaks
                if not outs:
                    return st
                st = self.fold(outs, base)
            if s.orelse:
                st = self.block(s.orelse, st)
            return st
        return self.loop(s, st, it)

    def fold(self, outs, base):
        acc = outs[-1]
        n = len(base.pc)
        for o in reversed(outs[:-1]):
            c = conj(*[x if p else neg(x) for x, p, k in o.pc[n:] if k in ('br', 'ret')])
            acc2 = State(merge_maps(c, o.env, acc.env, lambda k: None), self.merge_heap(c, o.heap, acc.heap), base.pc)
            acc = acc2
        if len(outs) == 1:
            acc = acc.copy()
            # keep only established guards
            acc.pc = base.pc + tuple(l for l in acc.pc[n:] if l[2] == 'raise')
        acc.env.pop('@how', None)
        acc.alive = True
        return acc

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def loop(self, s, st, it):
        self.counter += 1
        base = st
        body = st.copy()
        key = it if it is not None else mk('while', self.where(s))
        for v in sorted(self.assigned(s.body)):
            if v in body.env:
                body.env[v] = mk('mu', key, body.env[v], v if isinstance(s, ast.While) else '')
        # local containers changed in the body lose their exact content
        if it is not None:
            self.assign(s.target, self.elem_of(it, st), body, s)
            body.pc = base.pc + ((mk('iter', key), True, 'loop'),)
        else:
            c = self.cond(s.test, body)
            body.pc = base.pc + ((c, True, 'loop'),)
        lp = Obj()
        lp.breaks, lp.conts = [], []
        self.loops.append(lp)
        for v in self.mutated(s.body):
            o = body.env.get(v)
            c = body.heap.get(('content', o)) if o is not None else None
            if c is not None:
                body.heap[('content', o)] = ('dict', c[1], True) if c[0] == 'dict' else ('bag', list(c[1]))
        end = self.block(s.body, body)
        self.loops.pop()
        outs = ([end] if end.alive else []) + lp.conts + lp.breaks
        lc = mk('iter', key)
        post = base.copy()
        if outs:
            e = self.fold(outs, base)
            for k, v in e.env.items():
                old = base.env.get(k)
                if old is None:
                    post.env[k] = mk('loopval', key, mk('undef'), v)
                elif old is not v:
                    post.env[k] = mk('loopval', key, old, v)
            for k, v in e.heap.items():
                old = base.heap.get(k)
                if k[0] == 'content':
                    if old is None or old == v:
                        post.heap[k] = v
                    elif v[0] == 'dict':
                        post.heap[k] = ('dict', dict(v[1]), True)
                    else:
                        post.heap[k] = ('bag', list(v[1]))
                elif k[0] == 'itemset':
                    post.heap[k] = v
                elif old is not v:
                    post.heap[k] = mk('loopval', key, old if old is not None else attr(k[0], k[1]), v)
        if s.orelse:
            post = self.block(s.orelse, post)
        return post

    s_AsyncFor = s_For

    def elem_of(self, it, st):
        if it.op == 'phi':
            return phi(it.args[0], self.elem_of(it.args[1], st), self.elem_of(it.args[2], st))
        if it.op == 'call' and it.args[0].op == 'glob':
            f = it.args[0].args[0]
            if f == 'builtins.zip':
                return mk('tuple', *[self.elem_of(a, st) for a in it.args[1]])
            if f == 'builtins.enumerate' and it.args[1]:
                return mk('tuple', mk('index', it.args[1][0]), self.elem_of(it.args[1][0], st))
            if f in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed', 'builtins.iter') and len(it.args[1]) >= 1:
                return self.elem_of(it.args[1][0], st)
        c = self.content(it, st)
        if c is not None and c[0] in ('bag', 'exact') and c[1]:
            return c[1][0] if len(c[1]) == 1 else mk('oneof', *c[1])
        if it.op == 'comp':
            v = it.args[1]
            if it.args[0] == 'dict' and v.op == 'tuple' and len(v.args) == 2:
                return v.args[0]
            return v
        if it.op == 'call' and it.args[0].op == 'attr' and not it.args[1] and it.args[0].args[1] in ('items', 'keys', 'values'):
            b = it.args[0].args[0]
            if b.op == 'comp' and b.args[0] == 'dict' and b.args[1].op == 'tuple' and len(b.args[1].args) == 2:
                return {'items': b.args[1], 'keys': b.args[1].args[0], 'values': b.args[1].args[1]}[it.args[0].args[1]]
        return mk('elem', it)

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1].breaks.append(st.copy())
        st.alive = False
        return st

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1].conts.append(st.copy())
        st.alive = False
        return st

    def s_With(self, s, st):
        for i in s.items:
            v = self.expr(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        cut = any(i.context_expr.__class__ is ast.Call and
                  self.expr(i.context_expr.func, st.copy()) in (glob('torch.no_grad'), glob('torch.inference_mode')) for i in s.items)
        before = dict(st.env)
        st = self.block(s.body, st)
        if cut and st.alive:
            for k, v in list(st.env.items()):
                if isinstance(v, T) and before.get(k) is not v and v.op in ('op', 'call', 'item', 'phi'):
                    # computed outside autograd: what the name holds now has no history
                    st.env[k] = mk('call', attr(v, 'detach'), (), ())
        return st

    def s_Try(self, s, st):
        pre = st.copy()
        n0 = len(self.events)
        body = self.block(s.body, st)
        n1 = len(self.events)
        outs = [body] if body.alive else []
        swallowed = False
        handler_raise = True
        for h in s.handlers:
            hs = pre.copy()
            hs.pc = pre.pc + ((mk('exc', ast.unparse(h.type) if h.type else ''), True, 'try'),)
            if h.name:
                hs.env[h.name] = mk('exception', h.name)
            hs = self.block(h.body, hs)
            if hs.alive:
                outs.append(hs)
            if self.how(hs) != 'raise' or hs.alive:
                swallowed = True
        if swallowed:
            for e in self.events[n0:n1]:
                if e.kind == 'raise':
                    e.caught = True
        if not outs:
            r = body.copy()
            r.alive = False
        elif len(outs) == 1:
            r = outs[0]
            if r is not body:
                r.pc = tuple(pre.pc) + tuple((c, p, 'raise' if k == 'try' else k) for c, p, k in r.pc[len(pre.pc):])
        else:
            acc = outs[0]
            for o in outs[1:]:
                c = mk('exc', '')
                acc = State(merge_maps(neg(c), acc.env, o.env, lambda k: None), self.merge_heap(neg(c), acc.heap, o.heap), pre.pc)
            r = acc
        if r.alive and s.orelse:
            r = self.block(s.orelse, r)
        if s.finalbody:
            r2 = r.copy()
            r2.alive = True
            r2 = self.block(s.finalbody, r2)
            r2.alive = r.alive and r2.alive
            r = r2
        return r

    # ---- expressions -------------------------------------------------
    def cond(self, e, st):
        """Evaluate e as a condition: a normalised boolean term."""
        return self.truth(self.expr(e, st, cond=True), st)

    def truth(self, t, st=None):
        if is_const(t):
            return const(bool(cval(t)))
        if t.op == 'not':
            return neg(self.truth(t.args[0], st))
        if t.op == 'and':
            return conj(*[self.truth(a, st) for a in t.args])
        if t.op == 'or':
            return disj(*[self.truth(a, st) for a in t.args])
        if t.op == 'phi':
            return phi(t.args[0], self.truth(t.args[1], st), self.truth(t.args[2], st))
        if t.op in ('tuple', 'listv'):
            return const(len(t.args) > 0)
        if t.op == 'call' and t.args[0] == glob('builtins.bool') and len(t.args[1]) == 1:
            return self.truth(t.args[1][0], st)
        if t.op == 'call' and t.args[0] == glob('builtins.len') and len(t.args[1]) == 1 and st is not None:
            return t
        if st is not None and t.op in ('newlist', 'newdict'):
            c = self.content(t, st)
            if c is not None and c[0] == 'exact':
                return const(bool(c[1]))
        if t.op == 'fn' or t.op == 'new':
            return TRUE
        return t

    def expr(self, e, st, cond=False):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unknowns.append((type(e).__name__, self.where(e)))
            return mk('unk', type(e).__name__, self.where(e))
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value) if e.value is not Ellipsis else mk('ellipsis')

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fi = self.frame.fi
        return self.global_name(fi.mod, e.id)

    def global_name(self, mod, n):
        if n in mod.names:
            q = self.prog.canon(mod.names[n])
            return self.global_value(q)
        return glob('builtins.' + n)

    def global_value(self, q):
        parts = q.rsplit('.', 1)
        if len(parts) == 2 and parts[0] in self.prog.modules:
            m = self.prog.modules[parts[0]]
            if parts[1] in m.consts and q not in self.prog.funcs:
                v = self.const_expr(m.consts[parts[1]], m)
                if v is not None:
                    return v
        return glob(q)

    def const_expr(self, e, mod):
        try:
            v = ast.literal_eval(e)
            if isinstance(v, (int, float, str, bool, type(None))):
                return const(v)
            if isinstance(v, (tuple, list)) and all(isinstance(x, (int, float, str, bool, type(None))) for x in v):
                return mk('tuple', *[const(x) for x in v])
            return None
        except Exception:
            pass
        if isinstance(e, ast.Attribute):
            try:
                s = ast.unparse(e).split('.')
                if s[0] in mod.names:
                    return glob(self.prog.canon('.'.join([mod.names[s[0]]] + s[1:])))
            except Exception:
                pass
        if isinstance(e, ast.Name) and e.id in mod.names and e.id in mod.consts:
            return self.const_expr(mod.consts[e.id], mod)
        if isinstance(e, ast.BinOp):
            a, b = self.const_expr(e.left, mod), self.const_expr(e.right, mod)
            if a is not None and b is not None and is_const(a) and is_const(b):
                return self.binop(type(e.op).__name__, a, b)
        if isinstance(e, ast.Call):
            f = ast.unparse(e.func)
            d = f.split('.')
            if d[0] in mod.names:
                args = [self.const_expr(a, mod) for a in e.args]
                if all(a is not None for a in args):
                    return mk('call', glob(self.prog.canon('.'.join([mod.names[d[0]]] + d[1:]))), tuple(args), ())
        return None

    def e_Attribute(self, e, st):
        b = self.expr(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, n, st, node):
        if b.op == 'phi':
            return phi(b.args[0], self.getattr(b.args[1], n, st, node), self.getattr(b.args[2], n, st, node))
        if b.op == 'glob':
            q = b.args[0]
            if not q.startswith('builtins.'):
                q2 = self.prog.canon(q + '.' + n)
                v = self.global_value(q2)
                if v.op == 'glob' and q in self.prog.classes:
                    ci = self.prog.classes[q]
                    if n in ci.consts and ci.consts[n] is not None:
                        x = self.const_expr(ci.consts[n], ci.mod)
                        if x is not None:
                            return x
                return v
        if (b, n) in st.heap:
            if n in self.watch_attrs:
                self.emit('getattr', b, [const(n)], {}, st, node)
            return st.heap[(b, n)]
        if n in self.watch_attrs:
            self.emit('getattr', b, [const(n)], {}, st, node)
        ty = self.typeof(b)
        if isinstance(ty, str) and ty in self.prog.classes:
            ci = self.prog.classes[ty]
            fi = ci.methods.get(n)
            if fi is not None and fi.kind == 'property' and self.should_inline(fi.qual):
                return self.call_function(fi, None, [b], {}, st, node)
            if fi is None and n in ci.consts and ci.consts[n] is not None:
                x = self.const_expr(ci.consts[n], ci.mod)
                if x is not None:
                    return x
        return mk('attr', b, n)

    def e_Subscript(self, e, st):
        b = self.expr(e.value, st)
        i = self.expr(e.slice, st)
        return self.item(b, i, st)

    def item(self, b, i, st):
        if b.op == 'phi' and len(alts(b)) <= 8:
            return phi(b.args[0], self.item(b.args[1], i, st), self.item(b.args[2], i, st))
        if b.op == 'attr' and b.args[1] == '__dict__' and is_const(i):
            k = (b.args[0], cval(i))
            return st.heap.get(k, mk('attr', b.args[0], cval(i)))
        if b.op == 'comp' and b.args[0] == 'dict' and b.args[1].op == 'tuple' and len(b.args[1].args) == 2 and b.args[1].args[0] == i:
            return b.args[1].args[1]
        c = self.content(b, st)
        if c is not None:
            if c[0] == 'exact':
                if is_const(i) and isinstance(cval(i), int) and -len(c[1]) <= cval(i) < len(c[1]):
                    return c[1][cval(i)]
                if len(c[1]) == 2 and is_boolish(i):
                    return phi(i, c[1][1], c[1][0])
            elif c[0] == 'dict':
                if i in c[1]:
                    return c[1][i]
                if TRUE in c[1] and FALSE in c[1] and len(c[1]) == 2:
                    return phi(self.truth(i, st), c[1][TRUE], c[1][FALSE])
                if i.op == 'phi':
                    return phi(i.args[0], self.item(b, i.args[1], st), self.item(b, i.args[2], st))
                if c[1] and not c[2] and all(is_const(k) for k in c[1]) and len(c[1]) <= 8:
                    items = list(c[1].items())
                    r = items[-1][1]
                    for k, v in reversed(items[:-1]):
                        r = phi(self.eq(i, k), v, r)
                    return r
        if b.op in ('tuple', 'listv'):
            if is_const(i) and isinstance(cval(i), int) and -len(b.args) <= cval(i) < len(b.args):
                return b.args[cval(i)]
            if len(b.args) == 2 and (is_boolish(i) or i.op == 'param'):
                return phi(self.truth(i, st), b.args[1], b.args[0])
        if ('itemset', b, i) in st.heap:
            return st.heap[('itemset', b, i)]
        return mk('item', b, i)

    def e_Slice(self, e, st):
        f = lambda x: self.expr(x, st) if x is not None else NONE
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st)
                els = self.elements(v, st)
                if els is None:
                    out.append(mk('star', v))
                else:
                    out.extend(els)
            else:
                out.append(self.expr(x, st))
        return mk('tuple', *out)

    def e_List(self, e, st):
        t = self.e_Tuple(e, st)
        self.counter += 1
        o = mk('newlist', self.counter)
        if any(x.op == 'star' for x in t.args):
            st.heap[('content', o)] = ('bag', [mk('elem', x.args[0]) if x.op == 'star' else x for x in t.args])
        else:
            st.heap[('content', o)] = ('exact', list(t.args))
        self.literals.append((o, [(None, x.args[0]) if x.op == 'star' else (const(i), x) for i, x in enumerate(t.args)], st.pc))
        return o

    def e_Set(self, e, st):
        return self.e_List(e, st)

    def e_Dict(self, e, st):
        self.counter += 1
        o = mk('newdict', self.counter)
        d, inexact, lit = {}, False, []
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.expr(v, st)
                lit.append((None, src))
                c = self.content(src, st)
                if c is not None and c[0] == 'dict':
                    d.update(c[1])
                    inexact = inexact or c[2]
                else:
                    d[mk('star', src)] = mk('elem', src)
                    inexact = True
            else:
                kt = self.expr(k, st)
                d[kt] = self.expr(v, st)
                lit.append((kt, d[kt]))
        st.heap[('content', o)] = ('dict', d, inexact)
        self.literals.append((o, lit, st.pc))
        return o

    def e_Starred(self, e, st):
        return mk('star', self.expr(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.expr(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        fi = FuncInfo(self.frame.fi.qual + '.<lambda>', e, self.frame.fi.mod, None, self.frame.fi)
        return self.closure(fi, st.env)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        v = truth_under(c, self.facts(st))
        if v is True:
            return self.expr(e.body, st)
        if v is False:
            return self.expr(e.orelse, st)
        pc = st.pc
        st.pc = pc + ((c, True, 'br'),)
        a = self.expr(e.body, st)
        st.pc = pc + ((c, False, 'br'),)
        b = self.expr(e.orelse, st)
        st.pc = pc
        return phi(c, a, b)

    def e_BoolOp(self, e, st):
        vals = []
        pc = st.pc
        isand = isinstance(e.op, ast.And)
        for v in e.values:
            x = self.expr(v, st)
            vals.append(x)
            st.pc = st.pc + ((self.truth(x, st), isand, 'br'),)
        st.pc = pc
        if isand:
            return conj(*vals) if len(vals) > 1 else vals[0]
        if any(not is_boolish(self.truth(v, st)) and not is_const(v) for v in vals[:-1]) and False:
            return mk('or', *vals)
        return disj(*vals)

    def e_UnaryOp(self, e, st):
        v = self.expr(e.operand, st)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v, st))
        if is_const(v) and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool):
            return const(-cval(v) if isinstance(e.op, ast.USub) else +cval(v) if isinstance(e.op, ast.UAdd) else ~cval(v))
        return mk('op', type(e.op).__name__, v)

    def e_BinOp(self, e, st):
        a, b = self.expr(e.left, st), self.expr(e.right, st)
        if isinstance(e.op, ast.Add):
            x, y = self.elements(a, st), self.elements(b, st)
            if x is not None and y is not None and (a.op != 'tuple' or b.op != 'tuple'):
                self.counter += 1
                o = mk('newlist', self.counter)
                st.heap[('content', o)] = ('exact', x + y)
                return o
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b, inplace=False):
        for x, y, f in ((a, b, lambda q: self.binop(op, q, b)), (b, a, lambda q: self.binop(op, a, q))):
            if x.op == 'phi' and len(alts(x)) <= 4 and all(is_const(l) for _, l in alts(x)) and op in ('Add', 'Mod'):
                return phi(x.args[0], f(x.args[1]), f(x.args[2]))
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'FloorDiv': lambda: x // y,
                     'Div': lambda: x / y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'LShift': lambda: x << y,
                     'Mod': lambda: x % y, 'Pow': lambda: x ** y, 'BitXor': lambda: x ^ y, 'RShift': lambda: x >> y}[op]()
                return const(r)
            except Exception:
                pass
        if op == 'Mod' and is_const(a) and isinstance(cval(a), str) and (is_const(b) or (b.op == 'tuple' and all(is_const(z) for z in b.args))):
            try:
                return const(cval(a) % (cval(b) if is_const(b) else tuple(cval(z) for z in b.args)))
            except Exception:
                pass
        if op == 'Add' and a.op == 'tuple' and b.op == 'tuple':
            return mk('tuple', *(a.args + b.args))
        if op in ('Add', 'Mult', 'BitAnd', 'BitOr') and not (is_const(a) and isinstance(cval(a), str)) and not (is_const(b) and isinstance(cval(b), str)):
            if op in ('BitAnd', 'BitOr', 'Mult') and a.id > b.id:
                if not (is_const(a) and not is_const(b) and False):
                    pass
                if show(a) > show(b):
                    a, b = b, a
            elif op == 'Mult' and show(a) > show(b):
                a, b = b, a
        return mk('op', op, a, b)

    def eq(self, a, b):
        if a is b and not (a.op == 'unk'):
            return TRUE
        if is_const(a) and is_const(b):
            return const(cval(a) == cval(b))
        if a.op == 'phi' and is_const(b) and len(alts(a)) <= 8:
            return phi(a.args[0], self.eq(a.args[1], b), self.eq(a.args[2], b))
        for x, y in ((a, b), (b, a)):
            if is_const(y) and isinstance(cval(y), bool):
                tx = self.truth(x)
                return tx if cval(y) else neg(tx)
            if is_const(y) and cval(y) == 0 and (x.op == 'op' and x.args[0] == 'BitAnd'):
                return neg(x)
            if is_const(y) and cval(y) == 0 and x.op == 'call' and x.args[0] == glob('builtins.len'):
                return neg(x)
        # len(x.shape) is x.ndim, shape comparison
        if show(a) > show(b):
            a, b = b, a
        return mk('eq', a, b)

    def lt(self, a, b):
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) < cval(b))
            except Exception:
                pass
        return mk('lt', a, b)

    def e_Compare(self, e, st):
        left = self.expr(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return conj(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        n = type(op).__name__
        if n == 'Eq':
            return self.eq(a, b)
        if n == 'NotEq':
            return neg(self.eq(a, b))
        if n == 'Lt':
            return self.lt(a, b)
        if n == 'Gt':
            return self.lt(b, a)
        if n == 'LtE':
            return neg(self.lt(b, a))
        if n == 'GtE':
            return neg(self.lt(a, b))
        if n in ('Is', 'IsNot'):
            if is_const(a) and is_const(b):
                r = const(cval(a) is cval(b) or (cval(a) == cval(b) and type(cval(a)) is type(cval(b))))
            elif is_const(b) and isinstance(cval(b), bool):
                r = self.truth(a, st)
                r = r if cval(b) else neg(r)
            elif b is NONE and a.op in ('tuple', 'newlist', 'newdict', 'new', 'fn', 'glob'):
                r = FALSE
            elif a.op == 'phi' and b is NONE:
                r = phi(a.args[0], self.compare(ast.Is(), a.args[1], b, st), self.compare(ast.Is(), a.args[2], b, st))
            else:
                r = mk('is', a, b)
            return r if n == 'Is' else neg(r)
        if n in ('In', 'NotIn'):
            els = self.elements(b, st)
            c = self.content(b, st)
            if els is not None and (len(els) <= 16 or (is_const(a) and all(is_const(x) for x in els))) and (b.op == 'tuple' or c is not None or b.op == 'listv'):
                r = disj(*[self.eq(a, x) for x in els]) if els else FALSE
            else:
                r = mk('in', a, b)
            return r if n == 'In' else neg(r)
        return mk('cmp', n, a, b)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.expr(v, st))
        return self.fstr(parts)

    def fstr(self, parts):
        for i, p in enumerate(parts):
            if p.op == 'phi' and len(alts(p)) <= 4 and all(is_const(l) for _, l in alts(p)):
                return phi(p.args[0], self.fstr(parts[:i] + [p.args[1]] + parts[i + 1:]), self.fstr(parts[:i] + [p.args[2]] + parts[i + 1:]))
        if all(is_const(p) for p in parts):
            return const(''.join(str(cval(p)) for p in parts))
        return mk('fstr', *parts)

    def e_FormattedValue(self, e, st):
        return self.expr(e.value, st)

    def comp(self, e, st, elt):
        gens = e.generators
        g = gens[0]
        it = self.expr(g.iter, st)
        els = self.elements(it, st)
        sub = State(dict(st.env), st.heap, st.pc)
        if len(gens) == 1 and els is not None and len(els) <= 64:
            out = []
            exact = True
            for x in els:
                self.assign(g.target, x, sub, e)
                cs = [self.cond(i, sub) for i in g.ifs]
                c = conj(*cs)
                if is_const(c):
                    if cval(c):
                        out.append(elt(sub))
                else:
                    exact = False
                    out.append(elt(sub))
            return ('exact' if exact else 'bag', out, it)
        cs = []
        for g in gens:
            it = self.expr(g.iter, sub)
            self.assign(g.target, self.elem_of(it, sub), sub, e)
            sub.pc = sub.pc + ((mk('iter', it), True, 'loop'),)
            for i in g.ifs:
                c = self.cond(i, sub)
                cs.append(c)
                sub.pc = sub.pc + ((c, True, 'br'),)
        v = elt(sub)
        return ('comp', v, it, conj(*cs))

    def e_ListComp(self, e, st):
        r = self.comp(e, st, lambda s: self.expr(e.elt, s))
        if r[0] in ('exact', 'bag'):
            self.counter += 1
            o = mk('newlist', self.counter)
            st.heap[('content', o)] = (r[0], r[1])
            return o
        return mk('comp', 'list', r[1], r[2], r[3])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        r = self.comp(e, st, lambda s: mk('tuple', self.expr(e.key, s), self.expr(e.value, s)))
        if r[0] == 'exact':
            self.counter += 1
            o = mk('newdict', self.counter)
            st.heap[('content', o)] = ('dict', {t.args[0]: t.args[1] for t in r[1]}, False)
            return o
        return mk('comp', 'dict', r[1] if r[0] == 'comp' else mk('oneof', *r[1]), r[2], r[3] if r[0] == 'comp' else TRUE)

    def e_Yield(self, e, st):
        v = self.expr(e.value, st) if e.value else NONE
        self.frame.yields.append(v)
        self.emit('yield', self.frame.fi.qual, [v], {}, st, e)
        return NONE

    def e_Await(self, e, st):
        return self.expr(e.value, st)

    def e_YieldFrom(self, e, st):
        v = self.expr(e.value, st)
        self.frame.yields.append(mk('elem', v))
        return NONE

    def e_Call(self, e, st):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return mk('super', self.frame.fi.cls.qual if self.frame.fi.cls else '')
        f = self.expr(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st)
                els = self.elements(v, st)
                if els is not None:
                    args.extend(els)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.expr(a, st))
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                c = self.content(v, st)
                if c is not None and c[0] == 'dict' and not c[2] and all(is_const(x) for x in c[1]):
                    for x, y in c[1].items():
                        kw[cval(x)] = y
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def call(self, f, args, kw, st, node):
        if f.op == 'phi' and len(alts(f)) <= 8:
            c = f.args[0]
            pc = st.pc
            st.pc = pc + ((c, True, 'br'),)
            a = self.call(f.args[1], args, kw, st, node)
            st.pc = pc + ((c, False, 'br'),)
            b = self.call(f.args[2], args, kw, st, node)
            st.pc = pc
            return phi(c, a, b)
        if f.op == 'glob':
            r = self.call_glob(f.args[0], f, args, kw, st, node)
            return r
        if f.op == 'fn':
            cl = self.closures[f]
            if len(self.stack) < self.max_depth and cl.fi.qual not in self.stack:
                return self.call_function(cl.fi, cl.env, args, kw, st, node)
        if f.op == 'attr':
            return self.call_method(f.args[0], f.args[1], args, kw, st, node)
        res = mk('call', f, tuple(args), tuple(sorted(kw.items())))
        self.emit('call', f, args, kw, st, node, res)
        return res

    def should_inline(self, q):
        if q in self.stack or len(self.stack) >= self.max_depth:
            return False
        if self.inline_pred(q):
            return True
        if self.known is not None and q not in self.known:
            return True
        return False

    def call_glob(self, q, f, args, kw, st, node):
        P = self.prog
        if q.startswith('builtins.') or q in ('functools.partial', 're.compile', 're.search'):
            r = self.builtin(q, f, args, kw, st, node)
            if r is not None:
                return r
        if q in P.funcs:
            fi = P.funcs[q]
            if self.should_inline(q):
                if fi.kind == 'classm':
                    args = [glob(fi.cls.qual)] + list(args)
                return self.call_function(fi, None, args, kw, st, node)
        if q.endswith('.apply') and q[:-6] in P.classes and 'forward' in P.classes[q[:-6]].methods:
            # autograd function: what forward stores into its arguments is visible to the caller
            fwd = P.classes[q[:-6]].methods['forward']
            res = mk('call', f, tuple(args), tuple(sorted(kw.items())))
            self.emit('call', f, args, kw, st, node, res)
            if self.should_inline(fwd.qual):
                self.counter += 1
                ctx = mk('new', 'ctx', (), (), self.counter)
                self.call_function(fwd, None, [ctx] + list(args), kw, st, node)
            return res
        if q in P.classes:
            ci = P.classes[q]
            self.counter += 1
            o = mk('new', q, tuple(args), tuple(sorted(kw.items())), self.counter)
            self.emit('call', f, args, kw, st, node, o)
            init = ci.methods.get('__init__')
            if init is not None and self.should_inline(init.qual):
                self.call_function(init, None, [o] + list(args), kw, st, node)
            return o
        res = mk('call', f, tuple(args), tuple(sorted(kw.items())))
        self.emit('call', f, args, kw, st, node, res)
        return res

    def builtin(self, q, f, args, kw, st, node):
        n = q.split('.', 1)[1] if q.startswith('builtins.') else q
        if n == 'isinstance' and len(args) == 2:
            cls = args[1]
            if args[0].op == 'phi' and len(alts(args[0])) <= 4:
                return phi(args[0].args[0], self.builtin(q, f, [args[0].args[1], cls], kw, st, node),
                           self.builtin(q, f, [args[0].args[2], cls], kw, st, node))
            if cls.op == 'tuple':
                return disj(*[mk('isinstance', args[0], self.clsname(c)) for c in cls.args])
            if args[0].op == 'new' and cls.op == 'glob':
                return const(args[0].args[0] == cls.args[0])
            if is_const(args[0]) and cls.op == 'glob' and cls.args[0].startswith('builtins.'):
                return const(type(cval(args[0])).__name__ == cls.args[0][9:])
            return mk('isinstance', args[0], self.clsname(cls))
        if n == 'hasattr' and len(args) == 2:
            return mk('hasattr', args[0], args[1])
        if n == 'getattr' and len(args) >= 2:
            nm = args[1]
            if nm.op == 'phi' and len(alts(nm)) <= 8:
                return phi(nm.args[0], self.builtin(q, f, [args[0], nm.args[1]] + args[2:], kw, st, node),
                           self.builtin(q, f, [args[0], nm.args[2]] + args[2:], kw, st, node))
            if is_const(nm) and len(args) == 2:
                return self.getattr(args[0], cval(nm), st, node)
            if len(args) == 2:
                return mk('attrdyn', args[0], nm)
            return mk('getattr', *args)
        if n == 'setattr' and len(args) == 3:
            self.setattr(args[0], args[1], args[2], st, node)
            return NONE
        if n == 'delattr' and len(args) == 2:
            self.emit('delattr', args[0], [args[1]], {}, st, node)
            return NONE
        if n == 'len' and len(args) == 1:
            els = self.elements(args[0], st)
            if els is not None:
                return const(len(els))
            if args[0].op == 'attr' and args[0].args[1] == 'shape':
                return None
            return None
        if n in ('list', 'dict', 'set') and not args and not kw:
            self.counter += 1
            o = mk('newdict' if n == 'dict' else 'newlist', self.counter)
            st.heap[('content', o)] = ('dict', {}, False) if n == 'dict' else ('exact', [])
            return o
        if n == 'dict' and not args and '**' not in kw:
            self.counter += 1
            o = mk('newdict', self.counter)
            st.heap[('content', o)] = ('dict', {const(k): v for k, v in kw.items()}, False)
            self.literals.append((o, [(const(k), v) for k, v in kw.items()], st.pc))
            return o
        if n in ('list', 'tuple', 'set') and len(args) == 1:
            els = self.elements(args[0], st)
            if els is not None:
                if n == 'tuple':
                    return mk('tuple', *els)
                self.counter += 1
                o = mk('newlist', self.counter)
                st.heap[('content', o)] = ('exact', els)
                return o
        if n == 'zip':
            ls = [self.elements(a, st) for a in args]
            if ls and all(l is not None for l in ls):
                return mk('listv', *[mk('tuple', *t) for t in zip(*ls)])
        if n == 'enumerate' and args:
            l = self.elements(args[0], st)
            if l is not None:
                return mk('listv', *[mk('tuple', const(i), x) for i, x in enumerate(l)])
        if n == 'range' and args and all(is_const(a) and isinstance(cval(a), int) for a in args):
            r = range(*[cval(a) for a in args])
            if len(r) <= 16:
                return mk('listv', *[const(i) for i in r])
        if n == 'bool' and len(args) == 1:
            return self.truth(args[0], st)
        if n in ('int', 'float', 'str') and len(args) == 1 and is_const(args[0]):
            try:
                return const({'int': int, 'float': float, 'str': str}[n](cval(args[0])))
            except Exception:
                return None
        if n == 'any' and len(args) == 1:
            els = self.elements(args[0], st)
            if els is not None:
                return disj(*[self.truth(x, st) for x in els]) if els else FALSE
        if n == 'all' and len(args) == 1:
            els = self.elements(args[0], st)
            if els is not None:
                return conj(*[self.truth(x, st) for x in els])
        if n == 'functools.partial' and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if n == 're.search' and len(args) >= 2 and is_const(args[0]) and is_const(args[1]):
            return const(bool(re.search(cval(args[0]), cval(args[1]))))
        return None

    def clsname(self, c):
        if c.op == 'glob':
            q = c.args[0]
            q = {'typing.List': 'builtins.list', 'typing.Dict': 'builtins.dict', 'typing.Tuple': 'builtins.tuple',
                 '_k2.ragged.RaggedTensor': '_k2.ragged.RaggedTensor'}.get(q, q)
            return glob(q)
        return c

    def call_method(self, b, name, args, kw, st, node):
        if b.op == 'phi' and len(alts(b)) <= 4:
            return phi(b.args[0], self.call_method(b.args[1], name, args, kw, st, node),
                       self.call_method(b.args[2], name, args, kw, st, node))
        c = self.content(b, st)
        if c is not None:
            r = self.container_method(b, c, name, args, kw, st, node)
            if r is not None:
                return r
        if is_const(b) and isinstance(cval(b), str):
            if all(is_const(a) for a in args) and not kw and name in ('startswith', 'endswith', 'format', 'replace', 'lower', 'upper', 'strip'):
                try:
                    return const(getattr(cval(b), name)(*[cval(a) for a in args]))
                except Exception:
                    pass
            if name == 'format':
                parts = []
                segs = re.split(r'\{[^{}]*\}', cval(b))
                if len(segs) == len(args) + 1 and not kw:
                    for i, s in enumerate(segs):
                        if s:
                            parts.append(const(s))
                        if i < len(args):
                            parts.append(args[i])
                    return self.fstr(parts)
            if name == 'join' and len(args) == 1:
                els = self.elements(args[0], st)
                if els is not None:
                    parts = []
                    for i, x in enumerate(els):
                        if i and cval(b):
                            parts.append(b)
                        parts.append(x)
                    return self.fstr(parts)
        if b.op == 'call' and b.args[0] == glob('re.compile') and name in ('search', 'match') and args and is_const(args[0]) and b.args[1] and is_const(b.args[1][0]):
            return const(bool(getattr(re.compile(cval(b.args[1][0])), name)(cval(args[0]))))
        if b.op == 'attr' and b.args[1] == '__dict__' and name in ('get', 'pop') and args and is_const(args[0]):
            k = (b.args[0], cval(args[0]))
            self.emit('call', mk('attr', b, name), args, kw, st, node)
            return st.heap.get(k, mk('attr', b.args[0], cval(args[0])))
        if b.op == 'partial':
            pass
        if b.op == 'super':
            ci = self.prog.classes.get(b.args[0])
            res = mk('call', mk('attr', b, name), tuple(args), tuple(sorted(kw.items())))
            self.emit('call', mk('attr', b, name), args, kw, st, node, res)
            return res
        ty = self.typeof(b)
        if isinstance(ty, str) and ty in self.prog.classes:
            fi = self.prog.classes[ty].methods.get(name)
            if fi is not None and self.should_inline(fi.qual):
                a = list(args) if fi.kind == 'static' else ([glob(ty)] if fi.kind == 'classm' else [b]) + list(args)
                return self.call_function(fi, None, a, kw, st, node)
        f = mk('attr', b, name)
        res = mk('call', f, tuple(args), tuple(sorted(kw.items())))
        self.emit('call', f, args, kw, st, node, res)
        return res

    def container_method(self, b, c, name, args, kw, st, node):
        if name in ('append', 'add', 'extend', 'update') and args:
            self.appends.append((b, name, args[0], st.pc, self.where(node)))
        if name in ('append', 'add') and len(args) == 1 and c[0] in ('exact', 'bag'):
            st.heap[('content', b)] = (c[0], c[1] + [args[0]])
            return NONE
        if name == 'extend' and len(args) == 1 and c[0] in ('exact', 'bag'):
            els = self.elements(args[0], st)
            if els is not None:
                st.heap[('content', b)] = (c[0], c[1] + els)
            else:
                st.heap[('content', b)] = ('bag', c[1] + [self.elem_of(args[0], st)])
            return NONE
        if c[0] == 'dict':
            if name == 'get' and args:
                if args[0] in c[1]:
                    return c[1][args[0]]
            if name == 'items' and not args and not c[2]:
                return mk('dictitems', tuple((k, v) for k, v in c[1].items()))
            if name == 'keys' and not c[2]:
                return mk('listv', *c[1].keys())
            if name == 'values' and not c[2]:
                return mk('listv', *c[1].values())
            if name == 'pop' and args:
                v = c[1].get(args[0])
                self.content_del(b, args[0], st)
                if v is not None:
                    return v
            if name == 'update':
                d = dict(c[1])
                inex = c[2]
                if args:
                    cc = self.content(args[0], st)
                    if cc is not None and cc[0] == 'dict':
                        d.update(cc[1])
                        inex = inex or cc[2]
                    else:
                        inex = True
                for k, v in kw.items():
                    d[const(k)] = v
                st.heap[('content', b)] = ('dict', d, inex)
                return NONE
            if name == 'clear':
                st.heap[('content', b)] = ('dict', {}, False)
                return NONE
        return None

    def bind_args(self, fi, args, kw, st, closure_env=None):
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(ps):
                env[ps[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra)
        rest = {}
        names = set(ps) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            self.counter += 1
            o = mk('newdict', self.counter)
            st.heap[('content', o)] = ('dict', {const(k): v for k, v in rest.items()}, '**' in rest)
            env[a.kwarg.arg] = o
        dl = a.defaults
        for p, d in zip(ps[len(ps) - len(dl):], dl):
            if p not in env:
                env[p] = self.default(fi, d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default(fi, d, st)
        for p in list(ps) + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                env[p] = mk('missing', p)
        return env

    def default(self, fi, d, st):
        v = self.const_expr(d, fi.mod)
        if v is not None:
            return v
        return mk('default', ast.unparse(d))

    def call_function(self, fi, closure_env, args, kw, st, node):
        env = self.bind_args(fi, args, kw, st)
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and x.arg in env and not is_const(env[x.arg]):
                ty = self.anntype(fi.mod, x.annotation)
                if ty and env[x.arg] not in self.types and env[x.arg].op in ('param', 'item', 'elem', 'attr', 'call'):
                    self.types[env[x.arg]] = ty
        if closure_env is not None:
            env = {**closure_env, **env}
        sub = State(env, st.heap, st.pc)
        r = self.call_body(fi, sub)
        if r is None:
            # every path raises: the continuation is dead, keep going with unknown
            st.pc = st.pc + ((mk('noreturn', fi.qual), True, 'raise'),)
            return mk('bottom')
        v, s = r
        st.heap = s.heap
        st.pc = s.pc
        return v


def analyze(prog, qual, **kw):
    bind = kw.pop('bind', None)
    types = kw.pop('types', None)
    it = Interp(prog, **kw)
    r = it.run(qual, bind, types)
    it.result = r[0] if r else None
    it.final = r[1] if r else None
    return it
