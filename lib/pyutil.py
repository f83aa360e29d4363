"""Helpers over pyfront for the Python checks."""
import itertools
import json
import os
from pyfront import *
from harness import Broken, VERIF

NATIVE = '_k2.'


def load_known():
    return set(json.load(open(os.path.join(VERIF, 'spec', 'known_funcs.json'))))


def bool_params(fi):
    out = []
    a = fi.node.args
    pos = a.posonlyargs + a.args
    dflt = {x.arg: d for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))}
    for x in pos + a.kwonlyargs:
        d = dflt.get(x.arg)
        if (x.annotation is not None and ast.unparse(x.annotation) == 'bool' or
                x.annotation is None and isinstance(d, ast.Constant) and isinstance(d.value, bool)):
            out.append(x.arg)
    return out


def assignments(names):
    for vs in itertools.product((True, False), repeat=len(names)):
        yield dict(zip(names, vs))


def under(t, sigma):
    return assume(t, {param(k): v for k, v in sigma.items()})


def pc_under(pc, sigma):
    """False if pc is contradicted by sigma (on atoms), else True."""
    m = {param(k): v for k, v in sigma.items()}
    for c, p, k in pc:
        v = truth_under(c, m)
        if v is not None and v != p:
            return False
    return True


def calls_in(t):
    return [x for x in subterms(t) if x.op == 'call']


def callee(t):
    """Name of the callee of a call term: dotted global or '.method'."""
    f = t.args[0]
    if f.op == 'glob':
        return f.args[0]
    if f.op == 'attr':
        return '.' + f.args[1]
    return f.op


def arg(t_or_e, i, name=None, default=None):
    """i-th positional or named argument of a call term or call event."""
    if isinstance(t_or_e, T):
        args, kw = t_or_e.args[1], dict(t_or_e.args[2])
    else:
        args, kw = t_or_e.args, t_or_e.kw
    if name is not None and name in kw:
        return kw[name]
    if i is not None and i < len(args):
        return args[i]
    return default


COERCE_METHODS = {'to', 'contiguous', 'detach', 'cpu', 'clone', 'int', 'float', 'long', 'double', 'cuda', 'type', 'item'}
COERCE_FUNCS = {'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.str', 'builtins.list', 'builtins.tuple'}


def strip(t):
    """Drop representation-only conversions."""
    while True:
        if t.op == 'call':
            f = t.args[0]
            if f.op == 'attr' and f.args[1] in COERCE_METHODS:
                t = f.args[0]
                continue
            if f.op == 'glob' and f.args[0] in COERCE_FUNCS and len(t.args[1]) == 1:
                t = t.args[1][0]
                continue
        return t
