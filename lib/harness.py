"""Common driver of the checks: obligations, violations, evidence, exit codes.

exit 0  every obligation holds (known findings are printed, not counted)
exit 1  at least one violation which known_findings.txt does not list
exit 2  the analysis itself is broken (anchor vanished, too few instances)
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Broken(Exception):
    pass


class Check:
    def __init__(self, pid, technique):
        self.pid, self.technique = pid, technique
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.viol = []
        self.obl = {}          # rule -> [instances]
        self.analysed = {}
        self.notes = []
        self.assumptions = []

    def ob(self, rule, instance):
        """Count one obligation (a rule instance examined)."""
        self.obl.setdefault(rule, []).append(instance)

    def bad(self, rule, construct, loc, text):
        self.viol.append({'rule': rule, 'construct': construct, 'loc': loc, 'text': text})

    def check(self, ok, rule, construct, loc, text):
        self.ob(rule, construct)
        if not ok:
            self.bad(rule, construct, loc, text)
        return ok

    def need(self, ok, what):
        if not ok:
            raise Broken(what)

    def floor(self, rule, n):
        got = len(self.obl.get(rule, []))
        if got < n:
            raise Broken('rule %s matched %d instances, expected at least %d' % (rule, got, n))

    def known(self):
        ks = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                f = dict(x.split('=', 1) for x in line.split(' ') if '=' in x and x.split('=', 1)[0] in ('property', 'key'))
                if f.get('property') == self.pid:
                    ks[f.get('key')] = line
        return ks

    def finish(self):
        known = self.known()
        new, old = [], []
        seen = set()
        for v in self.viol:
            k = (v['rule'] + '|' + v['construct']).replace(' ', '_')
            if k in seen:
                continue          # one report per rule and construct
            seen.add(k)
            v['text'] = v['text'][:500]
            (old if k in known else new).append((k, v))
        for k, v in old:
            print('KNOWN-FINDING: property=%s %s %s: %s' % (self.pid, v['loc'], k, v['text']))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': self.technique,
                'rules': {r: {'instances': len(set(map(str, i))), 'examples': sorted(set(map(str, i)))[:12]}
                          for r, i in sorted(self.obl.items())},
                'obligations_examined': sum(len(i) for i in self.obl.values()),
                'analysed': self.analysed,
                'known_findings': [k for k, _ in old],
                'reports': [dict(v, key=k) for k, v in new][:50],
                'notes': self.notes,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1, default=str)
        for r, i in sorted(self.obl.items()):
            print('  rule %-34s %4d instances' % (r, len(set(map(str, i)))))
        if new:
            rp = os.path.join(EVID, self.pid + '.report.txt')
            with open(rp, 'w') as f:
                for k, v in new:
                    f.write('%s: [%s] %s: %s\n' % (v['loc'], v['rule'], v['construct'], v['text']))
            for k, v in new[:20]:
                print('%s: [%s] %s: %s' % (v['loc'], v['rule'], v['construct'], v['text']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s obligations=%d' % (self.pid, ev['coverage']['obligations_examined']))
        return 0


def main(pid, technique, fn):
    c = Check(pid, technique)
    try:
        fn(c)
        rc = c.finish()
    except Broken as e:
        # violations found before the anchor vanished are still violations
        if c.viol:
            c.notes.append('analysis incomplete: %s' % e)
            rc = c.finish()
            if rc == 1:
                sys.exit(1)
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
