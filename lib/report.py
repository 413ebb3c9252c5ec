"""Outcome of one check: violations, obligations, evidence."""
import json, os, time, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = {}      # key -> message
        self.obl = {}             # obligation id -> ok | undecided
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, key, detail=None):
        self.obl.setdefault(key, 'ok')
        if detail and len(self.samples) < 12:
            self.samples.append('%s: %s' % (key, detail))

    def undecided(self, key, why=''):
        self.obl.setdefault(key, 'undecided')

    def bad(self, key, msg):
        """key: stable (no line numbers)"""
        self.obl[key] = 'violated'
        self.violations.setdefault(key, msg)

    def need(self, cond, key, msg):
        (self.ok(key) if cond else self.bad(key, msg))
        return cond

    def floor(self, what, have, want):
        """fail closed: fewer rule instances than were confirmed by hand on the reference tree"""
        self.counts[what] = have
        if have < want:
            self.bad('floor:' + what, 'only %d %s were found, the rule needs at least %d: the construct it is about is gone' % (have, what, want))
        else:
            self.obl['floor:' + what] = 'ok'

    def finish(self, meta):
        known, fixed = load_known()
        out = []
        nviol = 0
        for k in sorted(self.violations):
            m = self.violations[k]
            e = known.get((self.prop, k))
            if e is not None:
                out.append('KNOWN-FINDING: property=%s %s' % (self.prop, e))
                self.obl[k] = 'known finding'
                continue
            nviol += 1
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%s.txt' % (self.prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
            open(p, 'w').write('property %s\nkey %s\n\n%s\n\nReproduce: cd /verif && python3 check.py %s %s\n' % (self.prop, k, m, self.prop, self.tier))
            if nviol <= 20:
                out.append('violation: %s' % m)
                out.append('VIOLATION property=%s replay=%s' % (self.prop, p))
        n = len(self.obl)
        ok = sum(1 for v in self.obl.values() if v == 'ok')
        und = [k for k, v in self.obl.items() if v == 'undecided']
        cov = {
            'explanation': 'Static analysis of the source of /repo as compiled on this run. ' + ' '.join(self.rules),
            'obligations': n, 'discharged': ok, 'undecided': len(und),
            'checker_cmd': 'python3 check.py %s %s' % (self.prop, self.tier),
            'trusted_base': meta.get('trusted_base', []),
            'rules': self.rules, 'counts': self.counts,
            'samples': self.samples[:12] or sorted(map(str, self.obl))[:12],
            'undecided_obligations': sorted(map(str, und))[:400],
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': meta.get('level', 'other'), 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        print('%s (%s): %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (self.prop, self.tier, n, ok, len(und), nviol, time.time() - self.t0))
        for c in sorted(self.counts):
            print('  %s: %s' % (c, self.counts[c]))
        for l in out:
            print(l)
        return 1 if nviol else 0

def load_known():
    """known-findings.txt lines:
       known: property=<id> key=<exact key> :: <what fails>
       fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                head, what = l[7:].split(' :: ', 1)
                pr, key = head.split(' key=', 1)
                known[(pr.split('=', 1)[1], key)] = what
            elif l.startswith('fixed: '):
                fixed.append(l)
    return known, fixed
