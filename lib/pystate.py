"""Python: state that outlives a call, sources that differ between calls, and
tensors used without having been given values."""
import ast
import re

GROW = {'append', 'add', 'update', 'pop', 'setdefault', 'extend', 'insert', 'clear', 'remove', 'discard', 'popitem', '__setitem__', 'sort', 'reverse', 'appendleft',
        'fill_', 'copy_', 'zero_', 'add_', 'mul_', 'resize_', 'set_'}
SOURCES = re.compile(r'^(random\.\w+|numpy\.random\.\w+|time\.\w+|datetime\.\w+(\.\w+)?|uuid\.\w+|secrets\.\w+|os\.(urandom|getpid|environ(\.\w+)?|getenv)|threading\.get_ident|id|hash|'
                     r'torch\.(rand|randn|randint|randperm|rand_like|randn_like|randint_like|bernoulli|multinomial|normal|poisson|seed|initial_seed))$')
DRAWS = {'bernoulli_', 'uniform_', 'normal_', 'random_', 'exponential_', 'geometric_', 'cauchy_', 'log_normal_', 'multinomial', 'bernoulli'}
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'bytearray', 'collections.defaultdict', 'collections.OrderedDict', 'collections.Counter', 'collections.deque', 'torch.zeros', 'torch.empty', 'torch.tensor', 'torch.ones',
          'WeakKeyDictionary', 'WeakValueDictionary', 'weakref.WeakKeyDictionary', 'weakref.WeakValueDictionary', 'itertools.count', 'count'}


def mutable(e):
    return isinstance(e, MUTABLE) or isinstance(e, ast.Call) and ast.unparse(e.func) in MAKERS


def base(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e


class Scan:
    def __init__(self, prog, report, count):
        self.prog, self.report, self.count = prog, report, count
        for m in prog.modules.values():
            if not m.name.startswith('k2.version'):      # reports the environment
                self.module(m)

    def module(self, m):
        self.m = m
        self.rel = m.path.split('/k2/python/')[-1]
        self.top = {}
        self.funcs = set()
        for s in self.flat(m.tree.body):
            for t in self.targets(s):
                if isinstance(t, ast.Name):
                    self.top[t.id] = s
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.funcs.add(s.name)
        for s in self.flat(m.tree.body):
            if isinstance(s, ast.FunctionDef):
                self.function(s, s.name, None)
            elif isinstance(s, ast.ClassDef):
                self.klass(s)

    def flat(self, body):
        for s in body:
            yield s
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
                yield from self.flat(s.body)
                yield from self.flat(getattr(s, 'orelse', []))
                for h in getattr(s, 'handlers', []):
                    yield from self.flat(h.body)

    def targets(self, s):
        if isinstance(s, ast.Assign):
            return s.targets
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            return [s.target]
        return []

    def klass(self, k):
        shared = {}
        own = set()
        for s in k.body:
            for t in self.targets(s):
                if isinstance(t, ast.Name) and getattr(s, 'value', None) is not None and mutable(s.value):
                    shared[t.id] = s
        deco = any('dataclass' in ast.unparse(d) for d in k.decorator_list)
        if not deco:
            for f in ast.walk(k):
                if isinstance(f, (ast.Assign, ast.AnnAssign)):
                    for t in self.targets(f):
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            own.add(t.attr)
        self.shared = {} if deco else {a: s for a, s in shared.items() if a not in own}
        for s in k.body:
            if isinstance(s, ast.FunctionDef):
                self.function(s, '%s.%s' % (k.name, s.name), k)
        self.shared = {}

    shared = {}

    def loc(self, n):
        return 'k2/python/%s:%d' % (self.rel, n.lineno)

    def function(self, f, qual, k):
        inst = '%s.%s' % (self.m.name, qual)
        self.count('state-py', inst)
        self.count('source-py', inst)
        rand = re.search(r'rand', f.name) and f.name != 'random_paths'
        for d in f.decorator_list:
            t = ast.unparse(d)
            if re.search(r'(^|\.)(lru_cache|cache)(\(|$)', t) and (f.args.args or f.args.vararg or f.args.kwarg):
                self.report('state-py', inst, self.loc(d), 'the results are kept between calls (@%s), keyed by objects that may change meanwhile' % t)
        a = f.args
        defaults = list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        dflt = {p.arg: d for p, d in defaults if mutable(d)}
        local = set()
        glob = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Global):
                glob.update(n.names)
        params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in glob:
                local.add(n.id)
            if isinstance(n, ast.arg):
                local.add(n.arg)
        outer = {p for p in dflt}

        def target(t, n, how):
            b = base(t)
            if not isinstance(b, ast.Name):
                return
            if b.id in glob and b is t or b.id not in local and b.id in self.top and b is not t:
                self.report('state-py', inst, self.loc(n), '`%s` of the module is %s here: a later call sees it' % (b.id, how))
            elif b is not t and b.id in dflt and b.id not in stored:
                self.report('state-py', inst, self.loc(n), 'the default of `%s` is one object for all calls, and is %s here' % (b.id, how))
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and b.id not in local and (b.id in self.funcs or self.imported(b.id)):
                self.report('state-py', inst, self.loc(n), '`%s`, which outlives the call, is %s here' % (ast.unparse(t), how))
            elif k is not None and isinstance(t, (ast.Attribute, ast.Subscript)):
                x = t
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                    if x.value.id == 'cls' or x.value.id == k.name and x.value.id not in local:
                        self.report('state-py', inst, self.loc(n), '`%s` of the class is %s here: every object sees it' % (ast.unparse(x), how))
                    elif x.value.id == 'self' and x.attr in self.shared and (x is not t or how == 'changed'):
                        self.report('state-py', inst, self.loc(n), '`%s` is one object for the whole class, and is %s here' % (ast.unparse(x), how))

        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in self.targets(n):
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        target(x, n, 'set')
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t, n, 'changed')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in GROW:
                    self.mutated(n, f, inst, local, dflt, stored, k)
                if n.func.attr in DRAWS and not rand:
                    self.report('source-py', inst, self.loc(n), '`%s` draws at random' % ast.unparse(n.func))
            if isinstance(n, ast.Call):
                name = self.dotted(n.func, local)
                if name and SOURCES.match(name) and not rand:
                    self.report('source-py', inst, self.loc(n), '`%s` differs between calls with the same arguments' % name)
        self.empties(f, inst)

    def mutated(self, n, f, inst, local, dflt, stored, k):
        o = n.func.value
        if isinstance(o, ast.Name):
            if o.id not in local and o.id in self.top:
                self.report('state-py', inst, self.loc(n), '`%s` of the module is changed here: a later call sees it' % o.id)
            elif o.id in dflt and o.id not in stored:
                self.report('state-py', inst, self.loc(n), 'the default of `%s` is one object for all calls, and is changed here' % o.id)
        elif isinstance(o, (ast.Attribute, ast.Subscript)):
            x = o
            while isinstance(x, ast.Subscript):
                x = x.value
            b = base(o)
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in self.shared:
                self.report('state-py', inst, self.loc(n), '`%s` is one object for the whole class, and is changed here' % ast.unparse(x))
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and k is not None and x.value.id in ('cls', k.name) and x.value.id not in (local - {'cls'}):
                self.report('state-py', inst, self.loc(n), '`%s` of the class is changed here: every object sees it' % ast.unparse(x))
            elif isinstance(b, ast.Name) and b.id not in local and (b.id in self.top or b.id in self.funcs):
                self.report('state-py', inst, self.loc(n), '`%s` of the module is changed here: a later call sees it' % b.id)

    def imported(self, name):
        t = self.m.names.get(name)
        return bool(t) and t.split('.')[0] in ('k2', '_k2')

    def dotted(self, e, local):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name) or e.id in local:
            return None
        root = self.m.names.get(e.id, e.id)
        if e.id not in self.m.names and not parts and e.id in self.funcs:
            return None
        return '.'.join([root] + parts[::-1])

    # ---- tensors made without values
    def empties(self, f, inst):
        for n in ast.walk(f):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call)):
                continue
            fn = ast.unparse(n.value.func)
            if not (fn == 'torch.empty' or fn.endswith(('.new_empty', 'torch.empty_like'))):
                continue
            v = n.targets[0].id
            if any(isinstance(x, ast.Constant) and x.value == 0 for x in n.value.args + sum([getattr(x, 'elts', []) for x in n.value.args], [])):
                continue
            self.count('empty-py', inst)
            rng, passed, hard = [], False, False
            for m in ast.walk(f):
                if isinstance(m, ast.Call):
                    if isinstance(m.func, ast.Attribute) and isinstance(m.func.value, ast.Name) and m.func.value.id == v:
                        if m.func.attr in ('fill_', 'copy_', 'zero_', 'index_copy_', 'scatter_', 'masked_fill_'):
                            passed = True
                    elif any(isinstance(x, ast.Name) and x.id == v for x in m.args + [w.value for w in m.keywords]):
                        t = ast.unparse(m.func)
                        if t.startswith('_k2.') or '_k2.' in t or t not in ('len', 'print', 'isinstance'):
                            passed = passed or m.lineno < self.first_store(f, v, n)
            loops = {id(y) for x in ast.walk(f) if isinstance(x, (ast.For, ast.While)) for y in ast.walk(x)}
            conds = {id(y) for x in ast.walk(f) if isinstance(x, ast.If) for y in ast.walk(x)} - {id(y) for x in ast.walk(f) if isinstance(x, ast.If) and any(z is n for z in ast.walk(x)) for y in ast.walk(x)}
            for m in ast.walk(f):
                if isinstance(m, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == v for t in m.targets):
                    if id(m) in loops:
                        hard = True
                    if id(m) in conds:
                        continue
                    for t in m.targets:
                        if isinstance(t, ast.Subscript):
                            i = t.slice
                            rng.append(list(i.elts) if isinstance(i, ast.Tuple) else [i])
            if passed or hard:
                continue
            if not self.full(rng):
                self.report('empty-py', inst, self.loc(n), '`%s` is made without values, and what is stored in it (%s) leaves elements without one' % (v, ', '.join('[%s]' % ', '.join(ast.unparse(x) for x in r) for r in rng) or 'nothing'))

    def first_store(self, f, v, n):
        ls = [m.lineno for m in ast.walk(f) if isinstance(m, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == v for t in m.targets)]
        return min(ls) if ls else 1 << 30

    def full(self, rng):
        """Whether the stored slices make up the whole tensor."""
        def whole(x):
            return isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None or isinstance(x, ast.Constant) and x.value is Ellipsis

        def end(x):
            try:
                return ast.literal_eval(x)
            except Exception:
                return ast.unparse(x)
        axes = {}
        for r in rng:
            part = [i for i, x in enumerate(r) if not whole(x)]
            if not part:
                return True
            if len(part) > 1:
                continue
            x = r[part[0]]
            ax = part[0] if not isinstance(r[0], ast.Constant) or r[0].value is not Ellipsis else part[0] - len(r)
            if isinstance(x, ast.Slice) and x.step is None:
                axes.setdefault(ax, []).append((0 if x.lower is None else end(x.lower), 'end' if x.upper is None else end(x.upper)))
            elif isinstance(x, (ast.Constant, ast.UnaryOp, ast.Name, ast.BinOp)):
                e = end(x)
                if isinstance(e, int):
                    axes.setdefault(ax, []).append((e, e + 1 if e != -1 else 'end'))
                elif not isinstance(x, ast.Name):
                    axes.setdefault(ax, []).append((e, e + ' + 1'))
        for ax, iv in axes.items():
            cur, more = 0, True
            while more and cur != 'end':
                more = False
                for lo, hi in iv:
                    if lo == cur and hi != cur:
                        cur, more = hi, True
                        break
            if cur == 'end':
                return True
        return False
