"""Verdicts, evidence, known findings."""
import os, json, time, hashlib
from .repo import Repo, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_inventory():
    p = os.path.join(VERIF, 'spec', 'inventory.json')
    if not os.path.exists(p): return {}
    return json.load(open(p))


class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.inv = load_inventory()
        self.known_funcs = self.inv
        self.known_names = set()
        for k in self.inv:
            self.known_names.add(k.split('|')[1].rsplit('::', 1)[-1])
        self.obligations = 0; self.failed = 0
        self.functions = []; self.inlined = set(); self.paths = 0; self.states = 0
        self.viol = {}; self.brk = []; self.customs = []; self.rules = []; self.opaque = []
        self.t0 = time.time()

    def param_names(self, f):
        v = self.inv.get('%s|%s|%d' % (f.file.replace('src/', '', 1), f.qual(), len(f.params)))
        if not v: return None
        if len(v) == 1: return v[0] or None
        t = ''.join(p[1].replace(' ', '') + ',' for p in f.params)
        for names, types in v:
            if types == t: return names
        return None

    def obl(self, n, bad=0):
        self.obligations += n; self.failed += bad

    def add_fn(self, fn, f, ex):
        self.functions.append('%s:%d %s' % (f.file, f.line, f.qual()))
        self.inlined |= ex.inlined; self.paths += ex.npaths; self.states += ex.nstates
        for c in fn.clauses:
            self.rules.append({'function': f.qual(), 'rule': c.text, 'instances': c.hits})
        if ex.opaque_stmts:
            self.brk.append('unparsed statement in %s: %s' % (f.qual(), ex.opaque_stmts[:1]))

    def note(self, what, n=1): self.rules.append({'rule': what, 'instances': n})

    def check(self, ok, file, where, clause, detail, line, msg):
        """one obligation of a custom rule"""
        self.obligations += 1
        if not ok:
            self.failed += 1
            self.violation(file, where, clause, detail, line, msg)

    def violation(self, file, where, clause, detail, line, msg):
        key = '%s|%s|%s|%s' % (file, where, clause, detail)
        if key not in self.viol: self.viol[key] = (line, msg)

    def broken(self, msg, absent=False):
        if absent:
            file, rest = msg.split(' ', 1)
            self.failed += 1
            self.violation(file, rest.split(':')[0], 'absent', rest[-160:], 0, msg + ' (the required construct is gone)')
        else: self.brk.append(msg)

    def finish(self):
        known = {}
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            for e in json.load(open(p)).get('findings', []):
                if e['property'] == self.pid: known[e['key']] = e
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        def hit(k):
            if k in known: return k
            k = k.rsplit('|', 1)[0]         # a finding may name function and rule only
            return k if k in known else None
        new = {k: v for k, v in self.viol.items() if hit(k) is None}
        seen = [known[x] for x in dict.fromkeys(hit(k) for k in self.viol) if x is not None]
        shown = self.rules; perfn = {}
        for r in self.rules: perfn[r.get('function')] = perfn.get(r.get('function'), 0) + 1
        if len(json.dumps(shown)) > 200000:     # keep the evidence file readable: every function keeps its first rules, all are counted above
            cut = {}; shown = []
            for r in self.rules:
                k = cut[r.get('function')] = cut.get(r.get('function'), 0) + 1
                if k <= 2: shown.append({a: (b[:160] if isinstance(b, str) else b) for a, b in r.items()})
        cov = {
            'explanation': 'static analysis of the current source: every path of each listed function (conditions split only where a rule '
                           'refers to them, states merged on equality) is explored over canonical values and every rule instance met on a '
                           'path is an obligation; nothing is executed and no solver is used',
            'functions_analysed': sorted(set(self.functions)), 'helpers_followed': sorted(self.inlined),
            'custom_rules': self.customs, 'rules_total': len(self.rules), 'rules_per_function': perfn, 'rules': shown, 'obligations': self.obligations,
            'failed_obligations': self.failed, 'paths': self.paths, 'states': self.states,
            'samples': self.rules[:3],
            'known_findings_seen': [e['key'] for e in seen],
        }
        doc = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
               'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
               'assumptions': ['callees outside the analysed files behave as their names and signatures say',
                               'functions run as written: no undefined behaviour elsewhere corrupts locals']}
        json.dump(doc, open(os.path.join(ev, self.pid + '.json'), 'w'), indent=1)
        for e in seen: print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        if new:
            for k, (line, msg) in sorted(new.items()):
                f, w, c, d = k.split('|', 3)
                print('  %s:%s %s: %s' % (f, line, w, msg))
            rp = os.path.join(ev, 'violation-%s.txt' % self.pid)
            with open(rp, 'w') as fo:
                for k, (line, msg) in sorted(new.items()): fo.write('%s\n  line %s: %s\n' % (k, line, msg))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.brk:
            for b in self.brk: print('ANALYSIS-BROKEN: ' + b)
            return 2
        if self.obligations == 0:
            print('ANALYSIS-BROKEN: no obligation'); return 2
        print('OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs' %
              (self.pid, self.obligations, len(set(self.functions)), self.paths, time.time() - self.t0))
        return 0
