"""Signatures of the native functions: a token-level reader of the pybind11
registrations in k2/python/csrc (names, argument names, defaults, overloads)."""
import glob
import os
import re

REPO = os.environ.get('K2_SRC', '/repo')
TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\#[^\n]*(?:\\\n[^\n]*)*)
 |(?P<raw>R"(?P<d>[^(\s]*)\(.*?\)(?P=d)")
 |(?P<str>"(?:\\.|[^"\\])*")
 |(?P<chr>'(?:\\.|[^'\\])')
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\.?\d[\w.+-]*)
 |(?P<op>::|->|\+\+|--|<<|[-+*/%&|^!=<>]=|&&|\|\||.)
''', re.X | re.S)


def tokens(src):
    out, line, pos = [], 1, 0
    for m in TOK.finditer(src):
        k = m.lastgroup if m.lastgroup != 'd' else 'raw'
        if m.group('raw'):
            k = 'raw'
        t = m.group(0)
        if k != 'ws':
            out.append((k, t, line))
        line += t.count('\n')
    return out


OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}


def match(ts, i):
    """Index just after the bracket that closes ts[i]."""
    d = 0
    while i < len(ts):
        t = ts[i][1] if ts[i][0] == 'op' else ''
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


def split(ts, angle=False):
    """Top-level comma-separated parts."""
    out, cur, d = [], [], 0
    for k, t, l in ts:
        if k == 'op':
            if t in OPEN or angle and t == '<':
                d += 1
            elif t in CLOSE or angle and t == '>':
                d -= 1
            elif t == ',' and d == 0:
                out.append(cur)
                cur = []
                continue
        cur.append((k, t, l))
    if cur:
        out.append(cur)
    return out


def text(ts):
    return ' '.join(t for _, t, _ in ts)


class Sig:
    """One overload of a native: argument names with defaults, C++ parameter types."""

    def __init__(self, name, where, args, params, target, kind):
        self.name, self.where, self.args, self.params, self.target, self.kind = name, where, args, params, target, kind
        # args: [(name, default text or None)] ; params: [(type text, name)] or None

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(a + ('=' + d if d is not None else '') for a, d in self.args))


def read():
    """{dotted python name: [Sig]} ; methods as _k2.Class.method"""
    files = sorted(glob.glob(REPO + '/k2/python/csrc/torch/**/*.cu', recursive=True)) + [REPO + '/k2/python/csrc/version.cu']
    toks = {f: tokens(open(f, encoding='utf-8').read()) for f in files}
    # names bound through a parameter: function -> list of name strings
    given, module_of = {}, {}
    for f, ts in toks.items():
        for i, (k, t, l) in enumerate(ts):
            if k == 'id' and t.startswith('Pybind') and i + 1 < len(ts):
                j = i + 1
                targ = None
                if ts[j][1] == '<':
                    e = j
                    while ts[e][1] != '>':
                        e += 1
                    targ = text(ts[j + 1:e])
                    j = e + 1
                if j < len(ts) and ts[j][1] == '(':
                    a = split(ts[j + 1:match(ts, j) - 1])
                    if a and len(a[0]) == 1 and a[0][0][0] == 'id' and a[0][0][1] in ('ragged', 'version'):
                        module_of[t] = '_k2.' + a[0][0][1]
                    if len(a) >= 2 and len(a[1]) == 1 and a[1][0][0] == 'str':
                        given.setdefault(t, []).append((a[1][0][1][1:-1], targ))
    sigs = {}
    for f, ts in toks.items():
        rel = os.path.relpath(f, REPO)
        fn = None
        recv = {}
        depth = 0
        i = 0
        while i < len(ts):
            k, t, l = ts[i]
            # a function definition  PybindX(py::module &m ...) {
            if k == 'id' and i + 4 < len(ts) and ts[i + 1][1] == '(' and (t.startswith('Pybind') or [x[1] for x in ts[i + 2:i + 5]] == ['py', '::', 'module']):
                e = match(ts, i + 1)
                if e < len(ts) and ts[e][1] == '{':
                    fn = t
                    recv = {'m': module_of.get(t, '_k2')}
                    i = e
                    continue
            if k == 'id' and t == 'class_' and ts[i - 1][1] == '::':
                # py::class_<...> var(m, "Name")
                e = i + 1
                d = 0
                while True:
                    if ts[e][1] == '<':
                        d += 1
                    if ts[e][1] == '>':
                        d -= 1
                    if ts[e][1] == '>>':
                        d -= 2
                    e += 1
                    if d <= 0:
                        break
                if ts[e][0] == 'id' and ts[e + 1][1] == '(':
                    a = split(ts[e + 2:match(ts, e + 1) - 1])
                    names = [a[1][0][1][1:-1]] if a[1][0][0] == 'str' else [n for n, _ in given.get(fn, [])] or ['?']
                    recv[ts[e][1]] = [recv.get(a[0][0][1], '_k2') + '.' + n for n in names]
                    i = e
                    continue
            if k == 'id' and t in ('def', 'def_static', 'def_property', 'def_property_readonly', 'def_readwrite', 'def_readonly') and \
                    ts[i - 1][1] == '.' and ts[i + 1][1] == '(':
                r = ts[i - 2]
                if r[0] == 'id':
                    who = recv.get(r[1])
                else:
                    who = last
                last = who
                e = match(ts, i + 1)
                one(sigs, who, given.get(fn, []), t, split(ts[i + 2:e - 1]), rel, l, ts[i + 2:e - 1])
                i += 2
                continue
            i += 1
    return sigs


def lambda_ret(ts):
    for i, (k, t, l) in enumerate(ts):
        if t == '[' and k == 'op':
            j = match(ts, i)
            if j < len(ts) and ts[j][1] == '(':
                e = match(ts, j)
                if e < len(ts) and ts[e][1] == '->':
                    f = e
                    while ts[f][1] != '{':
                        f += 1
                    return text(ts[e + 1:f])
                return 'void' if e < len(ts) and ts[e][1] == '{' and not any(x[1] == 'return' for x in ts[e:match(ts, e)]) else None
    return None


def one(sigs, who, given, kind, parts, rel, line, ts):
    if who is None or not parts:
        return
    first = parts[0]
    if first[0][0] == 'str':
        names = [first[0][1][1:-1]]
    elif first[0][0] == 'id' and first[0][1] == 'name':
        names = [n for n, _ in given]
    elif text(first).startswith('py :: init'):
        names = ['__init__']
    elif text(first).startswith('py :: pickle'):
        names = ['__setstate__']
    else:
        return
    args, params, target, ret = [], None, None, lambda_ret(ts)
    merged = []
    for p in parts:       # static_cast<R<A, B> (C::*)(D, E)>(&C::F) is one part
        if merged and text(merged[-1]).startswith('static_cast') and '::*)' not in text(merged[-1]).replace(' ', ''):
            merged[-1] = merged[-1] + [('op', ',', 0)] + p
        else:
            merged.append(p)
    parts = merged
    for p in parts[0 if names == ['__init__'] else 1:]:
        s = text(p)
        m = re.match(r'py :: arg \( "(\w+)" \)(?: = (.*))?$', s, re.S)
        if m:
            args.append((m.group(1), m.group(2)))
        elif params is None and any(t == '[' for _, t, _ in p[:6]):
            j = next(i for i, x in enumerate(p) if x[1] == '[')
            j = match(p, j)
            if j < len(p) and p[j][1] == '(':
                params = []
                for q in split(p[j + 1:match(p, j) - 1], angle=True):
                    eq = next((i for i, x in enumerate(q) if x[1] == '='), len(q))
                    q = q[:eq]
                    nm = q[-1][1] if len(q) > 1 and q[-1][0] == 'id' and q[-2][1] not in ('::',) else None
                    params.append((text(q[:-1] if nm else q), nm))
        elif p[0][1] == '&' or p[0][0] == 'id' and not s.startswith('py ::') and target is None:
            target = s.replace(' ', '').lstrip('&')
            m = re.match(r'static_cast<(.*?)\((\w+)::\*\)\((.*?)\)(?:const)?>\(&', target)
            if m and ret is None:
                ret = m.group(1)
    whos = who if isinstance(who, list) else [who]
    for w in whos:
        for n in names:
            sg = Sig(w + '.' + n, '%s:%d' % (rel, line), args, params, target, kind)
            sg.ret = ret
            sg.ismethod = isinstance(who, list) and kind in ('def',)
            sigs.setdefault(w + '.' + n, []).append(sg)


if __name__ == '__main__':
    for n, ss in sorted(read().items()):
        for s in ss:
            print(s.kind, s, s.where, len(s.params) if s.params is not None else s.target)
