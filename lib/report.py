"""Evidence, known findings and the exit protocol shared by all checks."""
import os, sys, json, time, hashlib, random
from build import VERIF
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')

def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l[len('finding: property=%s ' % prop):]
                key, _, what = rest.partition(' ')
                out.append((key[4:] if key.startswith('key=') else key, what))
    return out

class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time(); self.viol = []; self.unconfirmed = []; self.known_hit = set()
        self.cov = {}; self.assumptions = []; self.samples = []; self.notes = []
        self.known = load_known(prop); self.no_answer = False
    def violation(self, key, msg, replay):
        """key identifies the failing input/call site for the known-findings file."""
        for k, what in self.known:
            if k == key:
                if k not in self.known_hit:
                    self.known_hit.add(k); print('KNOWN-FINDING: property=%s %s' % (self.prop, what)); sys.stdout.flush()
                return
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        h = hashlib.sha256(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:12]
        p = os.path.join(EVID, 'replay', '%s-%s.json' % (self.prop, h))
        json.dump(dict(property=self.prop, key=key, message=msg, **replay), open(p, 'w'), indent=1)
        if len(self.viol) < 5:
            print('%s: %s' % (self.prop, msg)); print('VIOLATION property=%s replay=%s' % (self.prop, p)); sys.stdout.flush()
        self.viol.append((msg, p))
    def finish(self, level='model_checking'):
        for k, what in self.known:
            if k not in self.known_hit and not self.viol: self.notes.append('listed finding no longer reproduces: ' + k)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov, wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(self.viol))
        self.cov['samples'] = self.samples[:6]
        if self.notes: self.cov['notes'] = self.notes
        if self.unconfirmed: self.cov['unconfirmed_counterexamples'] = self.unconfirmed[:10]
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.%d.tmp' % (self.prop, os.getpid()))
        json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, os.path.join(EVID, self.prop + '.json'))
        print('%s %s: %s  (%.1fs)' % (self.prop, self.tier, 'VIOLATED' if self.viol else 'NO ANSWER, nothing could be explored' if self.no_answer else 'held on everything explored', time.time() - self.t0))
        for n in self.notes: print('  note: ' + n)
        sys.exit(1 if self.viol else 2 if self.no_answer else 0)
