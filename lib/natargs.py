"""Argument names of native calls: positional arguments resolved by the pybind11 registrations."""
from terms import *
import pybind
_SIG = None


def sigs():
    global _SIG
    if _SIG is None:
        _SIG = pybind.read()
    return _SIG


def native_args(name, args, kw):
    """{argument name: term} of a call of native `name`, or None when it is not known."""
    ss = sigs().get(name) or sigs().get(name + '.__init__')
    if not ss:
        return None
    best = None
    for s in ss:
        names = [a for a, _ in s.args] if s.args else [n for _, n in (s.params or [])]
        if len(args) > len(names):
            continue
        if any(k not in names for k in kw):
            continue
        d = dict(zip(names, args))
        d.update(kw)
        for a, dv in (s.args or []):
            if a not in d and dv is not None:
                d[a] = default(dv)
        best = d if best is None else best
    return best


def default(text):
    t = text.strip()
    if t in ('true', 'false'):
        return const(t == 'true')
    if t in ('py::none()', 'nullptr', 'torch::nullopt', '{}'):
        return const(None)
    try:
        return const(int(t))
    except ValueError:
        pass
    try:
        return const(float(t.rstrip('f')))
    except ValueError:
        pass
    if t.startswith('"') and t.endswith('"'):
        return const(t[1:-1])
    return mk('cppdefault', t)
