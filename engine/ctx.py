"""Obligations, findings and evidence of one check."""
import collections, json, os, re, time
import front
from ir import Undecided

class AnchorLost(Exception):
    """Something the rules are about is no longer in the sources."""

EXPL = {}

class Ctx:
    def __init__(self, prop, tier, seed, verbose=False):
        self.prop, self.tier, self.seed, self.verbose = prop, tier, seed, verbose
        self.t0 = time.time()
        self.n = collections.Counter()          # obligations per rule
        self.ok = collections.Counter()
        self.und = []
        self.viol = []
        self.keys = set()
        self.cover = collections.Counter()
        self.samples = collections.defaultdict(list)
        self.rules = {}
        self.assume = []
        self.floor = {}

    def rule(self, name, text, floor=1):
        """Declares a rule and the number of instances below which the check is broken."""
        self.rules[name] = text
        self.floor[name] = floor

    def ob(self, rule, where, ok, key=None, msg=None, path=None):
        """One decided obligation."""
        self.n[rule] += 1
        if ok:
            self.ok[rule] += 1
            if len(self.samples[rule]) < 3:
                self.samples[rule].append('%s: %s' % (where, msg) if msg and not callable(msg) else str(where))
            return True
        self.violation(rule, where, key or where, msg or 'rule violated', path)
        return False

    def violation(self, rule, where, key, msg, path=None):
        k = '%s:%s' % (rule, key)
        if k in self.keys:
            return
        self.keys.add(k)
        self.viol.append(dict(rule=rule, where=str(where), key=k, message=msg, path=path or []))

    def undecided(self, rule, where, why):
        self.n[rule] += 1
        self.und.append(dict(rule=rule, where=str(where), why=str(why)))

    def attempt(self, rule, where, fn, key=None):
        """Runs fn; it returns None when the obligation holds, or (message, path)."""
        try:
            r = fn()
        except Undecided as e:
            self.undecided(rule, where, e)
            return None
        if r is None or r is True:
            self.ob(rule, where, True)
            return True
        if isinstance(r, str):
            r = (r, None)
        self.ob(rule, where, False, key=key, msg=r[0], path=r[1])
        return False

    def anchor(self, cond, what):
        if not cond:
            raise AnchorLost('anchor missing: ' + what)

    def floors(self):
        for r, n in self.floor.items():
            if self.n[r] < n and not any(v['rule'] == r for v in self.viol):
                if self.viol or self.und:
                    continue
                raise AnchorLost('rule %s matched %d instances, at least %d expected' % (r, self.n[r], n))

    def finish(self):
        known = load_known(self.prop)
        rep = [v for v in self.viol if v['key'] not in known]
        kn = [v for v in self.viol if v['key'] in known]
        for v in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, v['key'], v['message']))
        rdir = os.path.join(front.BUILD, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for k, v in enumerate(rep):
            p = os.path.join(rdir, '%s-%d.txt' % (self.prop, k))
            with open(p, 'w') as o:
                o.write('property: %s\nrule: %s\n  %s\nconstruct: %s\nkey: %s\nfinding: %s\n' % (
                    self.prop, v['rule'], self.rules.get(v['rule'], ''), v['where'], v['key'], v['message']))
                if v['path']:
                    o.write('path:\n' + ''.join('  %s\n' % x for x in v['path']))
                o.write('to reproduce: python3 check.py %s --tier %s\n' % (self.prop, self.tier))
            if k < 40:
                print('  [%s] %s: %s' % (v['rule'], v['where'], v['message']))
                if v['path']:
                    print('      path: ' + ' -> '.join(map(str, v['path'])))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
        tot, ok = sum(self.n.values()), sum(self.ok.values())
        os.makedirs(os.path.join(front.VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='other',
                  coverage=dict(explanation='Static analysis of the current sources of /repo (nothing is executed): every instance of the '
                                'rules below was enumerated and decided.  obligations counts the instances, discharged those shown to hold, '
                                'undecided those the analysis could not decide (they raise no alarm).',
                                obligations=tot, discharged=ok, undecided=len(self.und), violations=len(rep), known_findings=len(kn),
                                per_rule={r: dict(rule=t, obligations=self.n[r], discharged=self.ok[r],
                                                  undecided=sum(1 for u in self.und if u['rule'] == r)) for r, t in self.rules.items()},
                                analysed=dict(self.cover), undecided_list=self.und[:30],
                                samples=[x for r in self.samples for x in self.samples[r]][:40]),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 3), violations=len(rep))
        with open(os.path.join(front.VERIF, 'evidence', self.prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
            o.write('\n')
        for u in self.und[:5]:
            print('UNDECIDED property=%s %s: %s' % (self.prop, u['where'], u['why']))
        print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d known (%.1f s)' % (
            self.prop, tot, ok, len(self.und), len(rep), len(kn), time.time() - self.t0))
        if self.verbose:
            for r in self.rules:
                print('   %-28s %4d obligations %4d discharged' % (r, self.n[r], self.ok[r]))
            for u in self.und[:60]:
                print('   undecided', u)
        return 1 if rep else 0

def load_known(prop):
    out = set()
    try:
        for l in open(os.path.join(front.VERIF, 'known-findings.txt')):
            m = re.match(r'KNOWN property=(\S+) key=(\S+)', l)
            if m and m.group(1) == prop:
                out.add(m.group(2))
    except OSError:
        pass
    return out
