#!/usr/bin/env python3
"""C09: results depend only on the arguments."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
from cxx import *
from cxxalias import Alias
from cxxfill import Fill, cond_key
from cxxgiven import given_unfilled, returned_unset
from cxxinit import Init, plain_structs
from cxxpath import strip
from c07 import Lam, bindings, plain_name
import pyfront
from pystate import Scan

sys.setrecursionlimit(100000)
SKIP = ('k2/torch/csrc/parse_options', 'k2/csrc/log.', 'k2/csrc/test_utils', 'k2/csrc/nvtx')
# what differs between two runs of the same call
SOURCES = re.compile(r'^(std::random_device::.*|std::(rand|srand|clock|time|random_shuffle)|s?rand(om)?|[dlm]rand48|clock|time|gettimeofday|clock_gettime|getpid|pthread_self|std::this_thread::get_id|'
                     r'std::chrono::(_V2::)?\w+_clock::now|(torch|at)::(rand|randn|randint|randperm|rand_like|randn_like|randint_like|bernoulli|multinomial|normal|poisson)|at::Tensor::(bernoulli|bernoulli_|uniform_|normal_|random_|multinomial)|getenv|secure_getenv|std::getenv)$')
# operations that are documented as random, or about time or the log
RANDOM = re.compile(r'rand(?!ompaths|om_paths)|gaussian|seed|swoosh|timer|timestamp|\blogger|loglevel|enableabort|enablecuda|disablechecks|maxcpumem|forceuncached', re.I)
# objects that live as long as the process and do not enter results
INFRA = re.compile(r'^(const )?(std::(once_flag|mutex|recursive_mutex|condition_variable)|k2::(CudaStreamOverride|Dim3)|k2::(ThreadPool|PinnedAllocator) ?\*|k2::(RandIntGenerator|RandIntGeometricGenerator|CpuRandState|CudaRandState(\[\d+\])?)|'
                   r'(std::)?(_?mgpu|mgpu|cub)::.*)$')
PLAIN = re.compile(r'^(const )?(bool|char|int|long|unsigned int|unsigned long|float|double|std::string|(const )?char \*(const)?|k2::internal::LogLevel)( const)?$')


def sets(body, d):
    """Where the variable d is assigned or changed."""
    for n in walk(body):
        if n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            yield n, n['a']
        elif n['k'] == 'un' and n['op'] in ('++', '--'):
            yield n, n['e']
        elif n['k'] == 'opcall' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['a']:
            yield n, n['a'][0]


def state(c, prog):
    for f in prog.funcs:
        if f.body is None or f.file.startswith(SKIP[2:]):
            continue
        for n in walk(f.body):
            if n['k'] != 'decl' or not isinstance(n.get('b'), list):
                continue
            for v in n['b']:
                if not v.get('static'):
                    continue
                inst = '%s:%s' % (plain_name(f), v['n'])
                c.ob('state', inst)
                t = v['t']
                local = {p.get('d') for p in f.params} | {w['d'] for q in walk(f.body) if q['k'] == 'decl' and isinstance(q.get('b'), list) for w in q['b'] if not w.get('static')}

                def depends(e):
                    return [m for m in walk(e) if m['k'] == 'ref' and m.get('d') in local and m.get('dk') in ('local', 'param') or m['k'] == 'this'] if e is not None else []
                infra = INFRA.match(t)
                if not infra and v.get('i') is not None and depends(v['i']):
                    c.bad('state', inst, f.loc(v), 'the static `%s` is set by the first call, from `%s` of that call: later calls see its value' % (v['n'], text(depends(v['i'])[0])))
                    continue
                const = t.startswith('const ') or t.endswith(' const') or t.endswith('*const')
                if infra or const:
                    continue
                once = [m for m in walk(f.body) if m['k'] == 'call' and shortname(m.get('f', '')) == 'call_once']
                inside = {id(x) for m in once for a in m['a'] for x in walk(a)}
                for m, l in sets(f.body, v['d']):
                    if any(q['k'] == 'ref' and q.get('d') == v['d'] for q in walk(l)):
                        if id(m) not in inside:
                            c.bad('state', inst, f.loc(m), 'the static `%s` is changed here: a later call sees it' % v['n'])
                        elif depends(m.get('b')):
                            inner = {w['d'] for a in once for x in a['a'] for q in walk(x) if q['k'] == 'decl' and isinstance(q.get('b'), list) for w in q['b']}
                            if [r for r in depends(m.get('b')) if r.get('d') not in inner]:
                                c.bad('state', inst, f.loc(m), 'the static `%s` is set once, from `%s` of the first call: later calls see its value' % (v['n'], text(depends(m.get('b'))[0])))
                if not PLAIN.match(t):
                    c.bad('state', inst, f.loc(v), 'the static `%s` (%s) keeps what calls put into it' % (v['n'], t))
    for name, g in sorted(prog.gvars.items()):
        if g['file'].startswith(SKIP) or g['file'].endswith('fake_cuda.h'):
            continue
        c.ob('state', name)
        t = g['t']
        r = prog.records.get(t.replace('const ', ''))
        if t == 'PyModuleDef' or r is not None and not r['fields']:
            continue                # nothing can be kept in it
        if t.startswith('const ') or t.endswith('const') or INFRA.match(t):
            continue
        for f in prog.funcs:
            if f.body is None:
                continue
            for m, l in sets(f.body, None):
                if any(q['k'] == 'ref' and q.get('dk') == 'global' and q.get('n') == name for q in walk(l)):
                    c.bad('state', name, f.loc(m), '`%s`, which outlives the call, is changed here' % name)
        if not PLAIN.match(t):
            c.bad('state', name, '%s:%d' % (g['file'], g['l']), '`%s` (%s) outlives calls and may be changed by them' % (name, t))


def sources(c, prog):
    """Callers of what differs between runs."""
    drawn = {}      # function name -> the source it reaches
    todo = []
    callers = {}
    units = []
    for f in prog.funcs:
        if f.body is None or f.file.startswith(SKIP) or '/benchmark/' in f.file:
            continue
        if f.file.startswith(('k2/python/csrc/', 'k2/torch/csrc/')):
            bs = bindings(f)
            for name, l in bs:
                units.append(('%s.%s' % (shortname(f.name), name), f, l.get('b'), ''))
            skip = {id(x) for name, l in bs for x in walk(l)}
        else:
            skip = set()
        units.append((plain_name(f), f, f.body, skip))
    for name, f, body, skip in units:
        c.ob('source', name)
        for n in walk(body):
            if skip and id(n) in skip:
                continue
            g = n.get('f')
            if n['k'] in ('call', 'ctor', 'opcall') and isinstance(g, str):
                if SOURCES.match(g):
                    drawn.setdefault(name, g)
                    if not RANDOM.search(name):
                        c.bad('source', name, f.loc(n), '`%s` differs between calls with the same arguments' % g)
                callers.setdefault(g, []).append((name, f, n))
    todo = list(drawn)
    while todo:
        g = todo.pop()
        if re.search(r'timer|timestamp|logger|loglevel|enableabort|enablecuda|disablechecks|maxcpumem|forceuncached|swoosh', g, re.I):
            continue
        for name, f, n in callers.get(g, ()):
            if name in drawn or f.file.startswith(SKIP):
                continue
            drawn[name] = g
            todo.append(name)
            if not RANDOM.search(name) and not shortname(name).startswith(('main', 'Pybind')):
                c.bad('source', name, f.loc(n), '`%s`, which draws at random, is called here' % shortname(g))


def partly(c, prog):
    """Tensors made without values and only written between bounds that are read from another."""
    for f in prog.funcs:
        if f.body is None or f.dep or not f.file.startswith(('k2/python/csrc/', 'k2/torch/csrc/')):
            continue
        init = {v['d']: v for n in walk(f.body) if n['k'] == 'decl' and isinstance(n.get('b'), list) for v in n['b']}
        par = {}

        def parents(n):
            for m in n.values() if isinstance(n, dict) else n:
                if isinstance(m, (dict, list)):
                    if isinstance(m, dict) and isinstance(n, dict):
                        par[id(m)] = n
                    elif isinstance(m, dict):
                        par[id(m)] = cur[0]
                    if isinstance(m, list):
                        cur.insert(0, n if isinstance(n, dict) else cur[0])
                        parents(m)
                        cur.pop(0)
                    else:
                        cur.insert(0, m)
                        parents(m)
                        cur.pop(0)
        cur = [f.body]
        if not any(n['k'] == 'call' and n.get('f') in ('torch::empty', 'at::empty') for n in walk(f.body)):
            continue
        parents(f.body)

        def has_value(e, depth=0):
            """The test of an optional in e: (its variable, stated positively)."""
            e = strip(e)
            if e is None or depth > 6:
                return None
            if e['k'] == 'un' and e['op'] == '!':
                r = has_value(e['e'], depth + 1)
                return (r[0], not r[1]) if r else None
            if e['k'] == 'call' and shortname(e.get('f', '')) in ('has_value', 'operator bool') and e.get('o') is not None:
                return strip(e['o']).get('d'), True
            if e['k'] == 'ref' and init.get(e.get('d'), {}).get('i') is not None:
                return has_value(init[e['d']]['i'], depth + 1)
            return None

        def from_tensor(e, depth=0):
            """A value read out of a tensor: the tensor's variable."""
            if depth > 8:
                return None
            for m in walk(e):
                if m['k'] == 'ref' and m.get('d') in init:
                    i = init[m['d']].get('i')
                    t = str(m.get('t'))
                    if 'TensorAccessor' in t:
                        return m['d']
                    if i is not None and re.match(r'^(const )?(int|long|unsigned|short)', t):
                        r = from_tensor(i, depth + 1)
                        if r:
                            return r
            return None

        for e in walk(f.body):
            if e['k'] != 'call' or e.get('f') not in ('torch::empty', 'at::empty'):
                continue
            v = next((w for w in init.values() if w.get('i') is not None and any(x is e for x in walk(w['i']))), None)
            if v is None:
                continue
            inst = '%s:%s' % (plain_name(f), v['n'])
            c.ob('partly', inst)
            accs = {d for d, w in init.items() if w.get('i') is not None and 'TensorAccessor' in w['t'] and any(x['k'] == 'ref' and x.get('d') == v['d'] for x in walk(w['i']))}
            if not accs:
                continue
            for n in walk(f.body):
                if n['k'] != 'bin' or n['op'] != '=':
                    continue
                l = strip(n['a'])
                x, idx = l, []
                while x is not None and (x['k'] == 'idx' or x['k'] == 'opcall' and x['op'] == '[]'):
                    idx.append(x['i'] if x['k'] == 'idx' else x['a'][1])
                    x = strip(x['b'] if x['k'] == 'idx' and 'b' in x else x.get('o') if x['k'] == 'idx' else x['a'][0])
                if x is None or x['k'] != 'ref' or x.get('d') not in accs:
                    continue
                used = {m.get('d') for i in idx for m in walk(i) if m['k'] == 'ref'}
                bound = None
                p = n
                while id(p) in par and bound is None:
                    p = par[id(p)]
                    if p['k'] == 'for':
                        head = [q for q in (p.get('i'), p.get('c')) if q is not None]
                        if any(w['d'] in used for q in head for m in walk(q) if m['k'] == 'decl' for w in m['b']) or any(m['k'] == 'ref' and m.get('d') in used for q in head for m in walk(q)):
                            bound = next((r for r in (from_tensor(q) for q in head) if r), None)
                if bound is None:
                    continue
                # every element is written where the bounds are those of the tensor
                b = init[bound]
                src = None
                i = b.get('i')
                for _ in range(4):
                    opt = next((m for m in walk(i) if m['k'] == 'call' and shortname(m.get('f', '')) == 'value_or'), None) if i is not None else None
                    if opt is not None:
                        src = strip(opt['o']).get('d')
                        break
                    r = next((m for m in walk(i) if m['k'] == 'ref' and m.get('d') in init), None) if i is not None else None
                    i = init[r['d']].get('i') if r else None
                ok = False
                p, q = e, par.get(id(e))
                while q is not None and not ok:
                    if q['k'] in ('cond', 'if'):
                        h = has_value(q['c'])
                        if h and (src is None or h[0] == src):
                            branch = any(x is e for x in walk(q['t']))
                            ok = branch != h[1]
                    p, q = q, par.get(id(q))
                if not ok:
                    c.bad('partly', inst, f.loc(e), '`%s` is made without values, and only the part within the bounds read from `%s` is written (line %d)' % (v['n'], b['n'], n['l']))
                break


def main(c):
    prog = Cxx((CORE, BIND, TORCHLIB))
    A = Alias(prog)
    pods = plain_structs(prog)
    tot = dict(given=0, arrays=0, decided=0, handed=0, filled=0, variables=0)
    for f in prog.funcs:
        if f.body is None or f.dep or f.file.startswith(SKIP):
            continue
        inst = plain_name(f)
        units = [(inst, f)]
        if f.file.startswith(('k2/python/csrc/', 'k2/torch/csrc/')):
            units += [('%s.%s' % (shortname(f.name), name), Lam(f, l)) for name, l in bindings(f)]
        for inst, g in units:
            w = Fill(prog, g, A)
            w.run()
            for a in w.allocs.values():
                if a.param:
                    if not a.known or not a.writes:
                        continue
                    tot['given'] += 1
                    c.ob('fill', '%s:*%s' % (inst, a.name))
                    t = w.gap(a)
                    if t and ' when ' in t:
                        c.bad('fill', '%s:*%s' % (inst, a.name), g.loc(a.writes[0][2]), '`*%s` is to be filled here, and is left with %s not set' % (a.name, t))
                    continue
                tot['arrays'] += 1
                x = w.none(a)
                if x:
                    c.bad('fill', '%s:%s' % (inst, a.name), g.loc(a.e), '`%s` has %s elements, and all that is written to it is in a kernel that does not run when %s is 0: what it has then is not set' % (a.name, w.say(a.S), w.say({(x,): 1})))
                if a.first and (a.pointer or a.writes):
                    e, _, rmw = a.first
                    c.bad('fill', '%s:%s:first' % (inst, a.name), g.loc(e), '`%s` has no values when it is made, and `%s` %s it before anything is written' % (a.name, text(e)[:60], 'changes what is in' if rmw else 'reads'))
                x = w.flag(a)
                if x:
                    c.bad('fill', '%s:%s:flag' % (inst, a.name), g.loc(x[0]), '`%s` has no values when it is made, is written only under a condition (line %d), and read here whatever happened' % (a.name, x[1][2]['l']))
                x = w.lists(a)
                if x:
                    c.bad('fill', '%s:%s:lists' % (inst, a.name), g.loc(x[2]), '`%s` has one element for each list here that only the elements of the list write: for a list without elements it is not set' % a.name)
                if not (a.known or a.early):
                    tot['handed'] += 1
                    continue
                tot['decided'] += 1
                c.ob('fill', '%s:%s' % (inst, a.name))
                t = w.gap(a)
                if t:
                    c.bad('fill', '%s:%s' % (inst, a.name), g.loc(a.e), '%s has no values when it is made, and is used with %s' % ('`%s`' % a.name if a.name and ' ' not in a.name else a.name or 'the array', t if ' when ' in t else t + ' not set'))
            if g is not f:
                continue
            for call, v, h, p, left, ok in given_unfilled(prog, f):
                k = '%s:%s:%s' % (inst, v['n'], plain_name(h))
                tot['filled'] += 1
                c.ob('given', k)
                if left:
                    c.bad('given', k, '%s:%s' % (h.file, left[0]), '`%s` points to the memory of `%s` of %s, which has no values yet (%s), and %s' % (
                        p, v['n'], shortname(f.name), g.loc(call), 'it is added to without being set' if left[1] == 'added to' else 'an element is not written here when %s' % left[1]))
            for v, u in returned_unset(prog, f):
                c.ob('given', '%s:%s' % (inst, v['n']))
                if u:
                    c.bad('given', '%s:%s' % (inst, v['n']), g.loc(u[0]), '`%s` has no values when it is made, and is returned here without any when %s' % (v['n'], u[1]))
            i = Init(prog, g, pods)
            i.run()
            tot['variables'] += i.count
            for (d, fld), (e, t) in i.bad.items():
                c.bad('init', '%s:%s%s' % (inst, i.vars[d].get('n') or '?', '.' + fld if fld else ''), g.loc(e), t)
            for d, v in i.vars.items():
                c.ob('init', '%s:%s' % (inst, v.get('n')))
    state(c, prog)
    sources(c, prog)
    partly(c, prog)
    py = pyfront.Program()
    Scan(py, c.bad, c.ob)
    c.floor('fill', 80)
    c.floor('given', 15)
    c.floor('init', 60)
    c.floor('state', 20)
    c.floor('source', 500)
    c.floor('source-py', 150)
    c.analysed.update({'arrays and tensors made without values': tot['arrays'], 'all their writes seen': tot['decided'], 'handed to another function before (not decided)': tot['handed'],
                       'pointers to fresh memory followed into the function that fills it': tot['filled'],
                       'variables and plain structs declared without values': tot['variables'], 'units': len(prog.units), 'python modules': len(py.modules)})


if __name__ == '__main__':
    harness.main('C09', 'definite assignment of arrays, tensors and variables, and a search of the call graph for state that outlives a call and for sources that differ between calls', main)
