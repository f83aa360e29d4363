#!/usr/bin/env python3
"""Writes spec/options.json: run by hand after reviewing the rows; no check runs it."""
import sys, os, json
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H + '/../lib', H + '/../checks']
from options import *
P = Program(); known = load_known()
out = {}
for q in sorted(P.funcs):
    if q not in known or not public(q):
        continue
    r = rows(P, q, known)
    d = defaults(P.funcs[q])
    if any(r.values()) or d:
        out[q] = {'rows': {k: v for k, v in r.items() if v}, 'defaults': d}
json.dump(out, open(H + '/options.json', 'w'), indent=0, sort_keys=True)
print(len(out), sum(len(v) for x in out.values() for v in x['rows'].values()))
