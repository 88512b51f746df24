"""Check driver: budgets, evidence, known findings, violations, replay files."""
import hashlib, json, os, sys, time, traceback
import build
from build import VERIF, HarnessError

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Check:
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.known_hits = {}
        self.cov = {}
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.exhaustive = True
        self.budget = float(os.environ.get('GWV_BUDGET') or (600 if tier == 'thorough' else 75))
        self.seen = {}
        try:
            with open(KNOWN) as f:
                self.known = [k for k in json.load(f)['findings'] if k['property'] == pid]
        except FileNotFoundError:
            self.known = []

    # ------------------------------------------------------------------ budget
    @property
    def quick(self):
        return self.tier != 'thorough'

    def elapsed(self):
        return time.time() - self.t0

    def out_of_time(self):
        if self.violations and os.environ.get('GWV_STOP'):      # development: the first violation will do
            return True
        return self.elapsed() > self.budget

    def incomplete(self, what):
        self.exhaustive = False
        self.cov.setdefault('not_completed', []).append(what)

    # ------------------------------------------------------------------ counts
    def add(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def distinct(self, key, value):
        s = self.seen.setdefault(key, set())
        s.add(value if isinstance(value, (str, int)) else repr(value))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    # -------------------------------------------------------------- violations
    def known_key(self, key):
        """True when `key` (a stable string naming the failing input) is a recorded finding."""
        for k in self.known:
            if key in k.get('keys', ()):
                self.known_hits.setdefault(k['id'], k)
                return True
        return False

    def violation(self, what, replay, key=None):
        """replay: json-able object that bin/check --replay understands."""
        if key is not None and self.known_key(key):
            return
        if os.environ.get('GWV_SHOWKEYS') and key is not None:
            print('KEY %s' % key)
            return
        if len(self.violations) >= 20:
            return
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        body = json.dumps({'property': self.pid, 'what': what, 'key': key, 'replay': replay}, indent=1, default=str)
        h = hashlib.sha1(body.encode()).hexdigest()[:10]
        p = os.path.join(d, '%s-%s.json' % (self.pid, h))
        with open(p, 'w') as f:
            f.write(body)
        self.violations.append((what, p))

    def finish(self):
        cov = dict(self.cov)
        cov.update(self.counts)
        for k, v in self.seen.items():
            cov[k] = len(v)
        cov['samples'] = self.samples
        cov['exhaustive'] = self.exhaustive
        if self.known_hits:
            cov['known_findings_seen'] = sorted(self.known_hits)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(self.elapsed(), 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s %s: %s in %.1fs%s' % (self.pid, self.tier, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))}),
                                        self.elapsed(), '' if self.exhaustive else ' (not exhaustive: %s)' % cov.get('not_completed')))
        if self.violations:
            for what, p in self.violations:
                print('  ' + what.replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violations[0][1]))
            return 1
        return 0
