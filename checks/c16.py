"""C16: every call of the Python layer fits what it calls.

The Python sources of the current tree are type-checked by pyright against stubs of the native module that are generated, in a scratch
directory, from the pybind11 registrations of the current tree.  Of its diagnostics only those are kept that say a call, a name or an
unpacking cannot work, whatever the values are (rules below); annotations that are merely untidy are not reported."""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import harness  # noqa: E402
import pybind  # noqa: E402
import stubs  # noqa: E402

TECH = 'whole-package type checking of the Python layer against native signatures extracted from the pybind11 registrations of the current tree'
CONF = {'include': ['src/k2'], 'pythonVersion': '3.12', 'typeCheckingMode': 'basic', 'extraPaths': ['src'], 'reportMissingImports': 'none', 'reportMissingModuleSource': 'none',
        'reportUnboundVariable': 'error', 'reportPossiblyUnboundVariable': 'none', 'reportUnnecessaryComparison': 'error', 'strictParameterNoneValue': False}
# functions annotated Union[Fsa, Tuple[...]] give alternatives that an option excludes: not a contradiction
ALTERNATIVES = re.compile(r'\bTuple\[|\btuple\[')


class Src:
    def __init__(self, path):
        self.text = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.text)
        self.parent = {}
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                self.parent[ch] = n

    def where(self, line):
        best = '<module>'
        names = []

        def walk(n, q):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    if ch.lineno <= line <= ch.end_lineno:
                        names.append(q + ch.name)
                        walk(ch, q + ch.name + '.')
                else:
                    walk(ch, q)
        walk(self.tree, '')
        return names[-1] if names else best

    def attr_at(self, line, col):
        """Attribute node whose attribute name starts at (line, col), 0-based col."""
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Attribute) and n.end_lineno == line and n.end_col_offset - len(n.attr.encode()) == col:
                return n

    def calls_at(self, line, col):
        out = []
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Call) and (n.lineno, n.col_offset) <= (line, col) < (n.end_lineno, n.end_col_offset):
                out.append(n)
        return sorted(out, key=lambda n: (n.lineno, n.col_offset))

    def unpacked_at(self, line, col):
        """Is the value at (line, col) taken apart by an assignment?"""
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
                v = n.value
                if (v.lineno, v.col_offset) <= (line, col) <= (v.end_lineno, v.end_col_offset):
                    return True
                t = n.targets[0]
                if (t.lineno, t.col_offset) <= (line, col) <= (v.end_lineno, v.end_col_offset):
                    return True
        return False

    def is_annotation(self, line, col):
        for n in ast.walk(self.tree):
            anns = []
            if isinstance(n, ast.arg):
                anns = [n.annotation]
            elif isinstance(n, ast.FunctionDef):
                anns = [n.returns]
            elif isinstance(n, ast.AnnAssign):
                anns = [n.annotation]
            for a in anns:
                if a is not None and (a.lineno, a.col_offset) <= (line, col) < (a.end_lineno, a.end_col_offset):
                    return True
        return False


def func_names(trees):
    out = set()
    for s in trees.values():
        for n in ast.walk(s.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


def callee_name(call):
    f = call.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def classify(d, src, known, native, k2classes):
    """(rule, detail) of a diagnostic that shows a call, name or unpacking that cannot work; None otherwise."""
    rule, msg = d.get('rule', ''), d['message']
    line, col = d['range']['start']['line'] + 1, d['range']['start']['character']
    if rule == 'reportAttributeAccessIssue':
        m = re.match(r'"(\w+)" is not a known attribute of module "(_?k2[\w.]*|\.[\w.]*)"', msg)
        if m:
            return 'name exists', '%s.%s' % (m.group(2), m.group(1))
        m = re.match(r'"(\w+)" is unknown import symbol', msg)
        if m:
            return 'name exists', 'import of %s' % m.group(1)
        m = re.match(r'Cannot (?:access|assign to) attribute "(\w+)" for class "(?:type\[)?([\w.]+)\*?\]?"', msg)
        if m:
            name, cls = m.groups()
            at = src.attr_at(line, col)
            if cls in native:
                if at is not None and isinstance(at.value, ast.Attribute) and at.value.attr in DYNAMIC:
                    return None          # an attribute of an Fsa: tensor or ragged by what the user put there
                return 'member exists', '%s.%s' % (cls, name)
            if cls == 'Fsa':
                if at is not None and isinstance(src.parent.get(at), ast.Call) and src.parent[at].func is at and msg.startswith('Cannot access'):
                    return 'member exists', 'Fsa.%s()' % name
                return None
            if cls in k2classes:
                return 'member exists', '%s.%s' % (cls, name)
        return None
    if rule == 'reportCallIssue':
        cs = src.calls_at(line, col)
        for c in reversed(cs):
            n = callee_name(c)
            if n in known:
                if msg.startswith('No overloads') and '"%s"' % n not in msg and '"__init__"' not in msg:
                    continue
                return 'call fits signature', '%s(): %s' % (n, msg.split('\n')[0])
        return None
    if rule == 'reportArgumentType':
        m = re.match(r'Argument of type "([^"]*)" cannot be assigned to parameter "(\w+)" of type "([^"]*)" in function "(\w+)"', msg)
        if m and '|' not in m.group(1) and not ALTERNATIVES.search(m.group(1)) and (m.group(1).rstrip('*') in native | {'Tensor', 'str', 'int', 'float', 'bool'} or m.group(1).startswith('(')) and m.group(4) in known and \
                any(t in native | {'str', 'Tensor'} for t in re.split(r'\W+', m.group(3))) and m.group(4) in NATIVE_FUNCS:
            return 'argument has the native type', '%s(%s): %s given for %s' % (m.group(4), m.group(2), m.group(1), m.group(3))
        return None
    if rule in ('reportAssignmentType', 'reportGeneralTypeIssues') and 'size mismatch' in msg:
        return 'result is unpacked in its size', msg.replace('\n', ' ')
    if 'is not iterable' in msg:
        m = re.match(r'"([\w.]+)\*?" is not iterable', msg)
        if m and m.group(1) in native and src.unpacked_at(line, col):
            return 'result is unpacked in its size', msg.replace('\n', ' ')
        return None
    if rule == 'reportIndexIssue' and 'method not defined on type' in msg:
        m = re.search(r'on type "([\w.]+)', msg)
        if m and (m.group(1) in native or m.group(1) in ('MethodType', 'FunctionType', 'int', 'float', 'bool')):
            return 'call fits signature', msg
        return None
    if rule in ('reportUndefinedVariable', 'reportUnboundVariable'):
        if src.is_annotation(line, col):
            return None
        return 'name is defined', msg
    return None


def returns(c, trees):
    """A function whose annotation gives the sizes of the tuples it returns returns no tuple of another size."""
    def sizes(a, out):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return
        if isinstance(a, ast.Subscript):
            n = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, 'id', '')
            el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if n in ('Tuple', 'tuple'):
                out.add(None if any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in el) else len(el))
            elif n in ('Union', 'Optional'):
                for x in el:
                    sizes(x, out)
        elif isinstance(a, ast.BinOp):
            sizes(a.left, out)
            sizes(a.right, out)

    def own(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            yield x
            yield from own(x)
    for r, s in trees.items():
        for f in ast.walk(s.tree):
            if not isinstance(f, ast.FunctionDef) or f.returns is None or f.name in ('forward', 'backward'):
                continue
            want = set()
            sizes(f.returns, want)
            if not want or None in want:
                continue
            for n in own(f):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
                    c.check(len(n.value.elts) in want, 'result has its announced size', '%s in %s' % (f.name, s.where(f.lineno)), 'k2/python/k2/%s:%d' % (r, n.lineno),
                            '%s() returns %d values here and is announced to return %s' % (f.name, len(n.value.elts), ' or '.join(map(str, sorted(want)))))


NATIVE_MEMBERS = set()
DYNAMIC = ('aux_labels', 'labels', 'scores')
NATIVE_FUNCS = set()


def declare_arcs(s):
    """Text with the native type of Fsa.arcs declared (on an existing line, so that lines keep their numbers)."""
    for n in s.tree.body:
        if isinstance(n, ast.ClassDef) and n.name == 'Fsa' and isinstance(n.body[0], ast.Expr):
            lines = s.text.split('\n')
            i = n.body[0].lineno - 1
            col = n.body[0].col_offset
            lines[i] = lines[i][:col] + 'arcs: "_k2.RaggedArc"; aux_labels: "torch.Tensor | _k2.ragged.RaggedTensor"; ' + lines[i][col:]
            return '\n'.join(lines)
    return s.text


def prepare(s):
    """What the checker sees of a file: as it is, but methods of Fsa cannot hide behind __getattr__, arcs and aux_labels have types,
    and the attribute iterator (annotated to give tensors only) gives tensors or ragged tensors."""
    t = re.sub(r'\bdef __getattr__\b', 'def __getattq__', declare_arcs(s))
    return re.sub(r'Iterator\[Tuple\[str, *torch\.Tensor\]\]', 'Iterator[Tuple[str, object]]', t)


def method_values(c, tmp, dst, trees, native):
    """Operands of comparisons, arithmetic and subscripts named like members of native classes: none of them is an uncalled method."""
    names = {n.split('.')[-1] for n in NATIVE_MEMBERS}
    marked = {}
    for r, s in trees.items():
        lines = prepare(s).split('\n')
        ins = []
        shift = 0
        for n in ast.walk(s.tree):
            if isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.ctx, ast.Load) and n.lineno == n.end_lineno:
                p = s.parent.get(n)
                if isinstance(p, (ast.Compare, ast.BinOp)) or isinstance(p, ast.Subscript) and p.value is n or isinstance(p, ast.keyword) or isinstance(p, ast.Call) and n in p.args:
                    ins.append(n)
        for n in sorted(ins, key=lambda n: -n.col_offset):
            i = n.lineno - 1
            b = lines[i].encode()
            inner = any(m is not n and m.lineno == n.lineno and m.col_offset <= n.col_offset and m.end_col_offset >= n.end_col_offset for m in ins)
            if not inner:
                lines[i] = (b[:n.col_offset] + b'reveal_type(' + b[n.col_offset:n.end_col_offset] + b')' + b[n.end_col_offset:]).decode()
                marked[(r, n.lineno)] = marked.get((r, n.lineno), 0) + 1
        open(os.path.join(dst, r), 'w', encoding='utf-8').write('\n'.join(lines))
    r = subprocess.run(['pyright', '-p', '.', '--outputjson'], cwd=tmp, capture_output=True, text=True, timeout=600)
    for d in json.loads(r.stdout)['generalDiagnostics']:
        m = re.match(r'Type of "(.*)" is "(.*)"$', d['message'], re.S)
        if d['severity'] != 'information' or not m:
            continue
        f = os.path.relpath(d['file'], dst)
        if f not in trees:
            continue
        line = d['range']['start']['line'] + 1
        p = m.group(2)
        method = re.match(r'(Overload\[)?\([^()]*\) -> ', p) is not None
        # a native method handed over as a value is only wrong where a number is needed
        if method and d['severity'] == 'information':
            src = trees[f]
            for n in ast.walk(src.tree):
                if isinstance(n, ast.Attribute) and n.lineno == line and ast.unparse(n).replace(' ', '') == m.group(1).replace(' ', '') and \
                        isinstance(src.parent.get(n), (ast.Compare, ast.BinOp, ast.Subscript)):
                    c.bad('method is called', '%s in %s' % (m.group(1), src.where(line)), 'k2/python/k2/%s:%d' % (f, line), '%s is a method (%s) and is used as a value' % (m.group(1), p))
        c.ob('method is called', '%s:%d %s' % (f, line, m.group(1)))


def autograd_calls(c, rel, src, classes):
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'apply':
            v = n.func.value
            name = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else None
            if name in classes:
                lo, hi = classes[name]
                if any(isinstance(a, ast.Starred) for a in n.args):
                    continue
                k = len(n.args)
                c.check(not n.keywords and lo <= k and (hi is None or k <= hi), 'apply fits forward', '%s in %s' % (name, src.where(n.lineno)), '%s:%d' % (rel, n.lineno),
                        '%s.apply() gets %d arguments%s, its forward() takes %s' % (name, k, ' and keywords' if n.keywords else '', lo if lo == hi else '%s..%s' % (lo, hi)))


def run(c):
    pkg = os.path.join(pybind.REPO, 'k2/python/k2')
    c.need(os.path.isdir(pkg), 'k2/python/k2 is gone')
    sigs = pybind.read()
    c.need(len(sigs) > 120, 'only %d native names found in the pybind11 registrations' % len(sigs))
    for n in sigs:
        NATIVE_FUNCS.add(n.split('.')[-1])
    NATIVE_FUNCS.add('__init__')
    native = {n.split('.')[-2] for n in sigs if n.split('.')[-2] not in ('_k2', 'ragged', 'version')}
    tmp = tempfile.mkdtemp(prefix='c16_')
    try:
        dst = tmp + '/src/k2'
        trees = {}
        for root, _, files in os.walk(pkg):
            for f in files:
                if not f.endswith('.py'):
                    continue
                p = os.path.join(root, f)
                r = os.path.relpath(p, pkg)
                os.makedirs(os.path.dirname(os.path.join(dst, r)), exist_ok=True)
                s = Src(p)
                trees[r] = s
                # dynamic attributes of Fsa are data: without __getattr__ the checker tells which methods do not exist
                open(os.path.join(dst, r), 'w', encoding='utf-8').write(prepare(s))
        nsig = stubs.write(tmp + '/src')
        json.dump(CONF, open(tmp + '/pyrightconfig.json', 'w'))
        r = subprocess.run(['pyright', '-p', '.', '--outputjson'], cwd=tmp, capture_output=True, text=True, timeout=600)
        try:
            out = json.loads(r.stdout)
        except ValueError:
            raise harness.Broken('pyright gave no answer: %s %s' % (r.stdout[-300:], r.stderr[-300:]))
        c.need(out['summary']['filesAnalyzed'] >= 20, 'pyright analysed only %s files' % out['summary']['filesAnalyzed'])
        known = func_names(trees) | NATIVE_FUNCS
        k2classes = {n.name for s in trees.values() for n in ast.walk(s.tree) if isinstance(n, ast.ClassDef)}
        diags = out['generalDiagnostics']
        kept = 0
        for d in diags:
            r = os.path.relpath(d['file'], dst)
            if r.startswith('..') or r not in trees:
                if d['file'].endswith('.pyi') and d['severity'] == 'error' and 'rule' not in d:
                    raise harness.Broken('generated stub does not parse: %s' % d['message'])
                continue
            if d['severity'] == 'error' and 'rule' not in d:
                raise harness.Broken('%s: %s' % (r, d['message']))
            k = classify(d, trees[r], known, native, k2classes)
            if k:
                kept += 1
                line = d['range']['start']['line'] + 1
                c.bad(k[0], '%s in %s' % (k[1][:90], trees[r].where(line)), 'k2/python/k2/%s:%d' % (r, line), d['message'].replace('\n', ' ')[:300])
        returns(c, trees)
        for n in sigs:
            if n.split('.')[-2] in native:
                NATIVE_MEMBERS.add(n)
        method_values(c, tmp, dst, trees, native)
        # what was covered: calls, attribute reads on the native module, unpackings
        ncall = 0
        for r, s in trees.items():
            for n in ast.walk(s.tree):
                if isinstance(n, ast.Call):
                    nm = callee_name(n)
                    if nm in known:
                        ncall += 1
                        c.ob('call fits signature', '%s:%d %s()' % (r, n.lineno, nm))
                    f = n.func
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == '_k2':
                        c.ob('name exists', '%s:%d _k2.%s' % (r, n.lineno, f.attr))
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call):
                    c.ob('result is unpacked in its size', '%s:%d %s()' % (r, n.lineno, callee_name(n.value)))
        classes = {}
        for s in trees.values():
            for n in ast.walk(s.tree):
                if isinstance(n, ast.ClassDef) and any('Function' in ast.unparse(b) for b in n.bases):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef) and m.name == 'forward':
                            k = len(m.args.args) - 1
                            classes[n.name] = (k - len(m.args.defaults), None if m.args.vararg else k)
        for r, s in trees.items():
            autograd_calls(c, 'k2/python/k2/' + r, s, classes)
        overloads(c, sigs, trees)
        c.analysed = {'python files': len(trees), 'native signatures': nsig, 'autograd functions': len(classes), 'calls of package or native functions': ncall,
                      'pyright diagnostics': len(diags), 'of which contradictions': kept, 'pyright': out.get('version')}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.floor('call fits signature', 300)
    c.floor('name exists', 40)
    c.floor('apply fits forward', 8)
    c.assumptions = ['pyright resolves names, calls and unpackings correctly', 'torch objects are not typed: calls on tensors are not judged']


def overloads(c, sigs, trees):
    """Every native called from Python with keywords has an overload that takes them together (pyright reports it as a call issue);
    here: every registered keyword is spelled alike in all overloads that Python calls by keyword."""
    for r, s in trees.items():
        for n in ast.walk(s.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == '_k2':
                ss = sigs.get('_k2.' + n.func.attr)
                if not ss or any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
                    continue
                kws = {k.arg for k in n.keywords}
                ok = False
                for x in ss:
                    if not x.args:
                        ok = ok or not kws
                        continue
                    names = [a for a, _ in x.args]
                    req = [a for a, d in x.args if d is None]
                    given = set(names[:len(n.args)]) | kws
                    ok = ok or len(n.args) <= len(names) and kws <= set(names[len(n.args):]) and set(req) <= given
                c.check(ok, 'native takes these arguments', '_k2.%s in %s' % (n.func.attr, s.where(n.lineno)), 'k2/python/k2/%s:%d' % (r, n.lineno),
                        '_k2.%s is called with %d positional arguments and keywords %s; registered: %s' % (n.func.attr, len(n.args), sorted(kws), '; '.join(map(repr, ss))))


if __name__ == '__main__':
    harness.main('C16', TECH, run)
