"""Reporting shared by all checks."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import facts

VERIF = facts.VERIF
REPO = facts.REPO
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.viol = {}             # key -> message
        self.obl = {}              # key -> (description, discharged)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.selftests = []
        self.missing = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def discharge(self, where, what):
        """an obligation that was proved"""
        self.obl.setdefault((where, what), True)

    def violate(self, where, what, detail=''):
        self.obl[(where, what)] = False
        self.viol.setdefault('%s: %s' % (rel(where), what), detail)

    def oblige(self, cond, where, what, detail=''):
        if cond:
            self.discharge(rel(where), what)
        else:
            self.violate(rel(where), what, detail)
        return cond

    def selftest(self, name, fired):
        """a rule whose expected count is zero must fire on its built-in positive control"""
        self.selftests.append((name, bool(fired)))
        if not fired:
            raise RuntimeError('self-test of rule "%s" did not fire: the check is broken' % name)

    def minimum(self, name, n):
        """the analysis must have found at least n instances of what it quantifies over"""
        if self.counts.get(name, 0) < n:
            # judged after the violations: code that breaks the property may also hide instances
            self.missing.append('only %d %s found, expected at least %d: the code moved out of the analysis'
                               % (self.counts.get(name, 0), name, n))

    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.pid):
                    out.append(line.split(' ', 2)[2])
        return out

    def finish(self, explanation=''):
        known = self.known()
        fresh = []
        for k, d in sorted(self.viol.items()):
            hit = [x for x in known if k.startswith(x.split(' || ')[0]) or (x.split(' || ')[0] in k)]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
            else:
                fresh.append((k, d))
        n = len(self.obl)
        good = sum(1 for v in self.obl.values() if v)
        print('%s: %s' % (self.pid, ', '.join('%s=%s' % kv for kv in sorted(self.counts.items()))))
        print('%s: obligations=%d discharged=%d' % (self.pid, n, good))
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        cov = {'explanation': (explanation or self.rule), 'rule': self.rule, 'obligations': n, 'discharged': good,
               'analysed': self.counts, 'self_tests': ['%s: fired' % a for a, _ in self.selftests],
               'samples': [('%s: %s' % k) for k in sorted(self.obl)[:12]], 'notes': self.notes}
        ev = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(fresh)}
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if fresh:
            rp = os.path.join(evd, self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for k, d in fresh:
                    f.write(k + '\n')
                    if d:
                        f.write('    ' + str(d).replace('\n', '\n    ') + '\n')
            for k, d in fresh[:20]:
                print('  %s' % k)
                if d:
                    print('      %s' % d)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.exit(1)
        if self.missing:
            raise RuntimeError('; '.join(self.missing))
        sys.exit(0)
