"""Obligation results, known findings, evidence and verdicts."""
import json, os, re, time, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Viol:
    __slots__ = ('rule', 'msg', 'loc', 'func', 'trace', 'ob')

    def __init__(self, rule, msg, loc, func, trace=(), ob=''):
        self.rule, self.msg, self.loc, self.func, self.trace, self.ob = rule, msg, loc or '', func or '', list(trace), ob

    def text(self):
        return '%s: %s in %s: %s [%s]' % (self.rule, self.loc, self.func, self.msg, self.ob)


class Rep:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.viols = []
        self.functions = set()
        self.details = {}
        self.rules = []
        self.assumptions = []
        self.samples = []
        self.missing = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def add_result(self, R, rules=None, skip=()):
        """one engine Result; rules: set of rule names that count for this property"""
        fn = R.name
        bad = [v for v in R.viol if (rules is None or v[0] in rules) and v[0] not in skip]
        und = [v for v in R.undecided if (rules is None or v[0] in rules or v[0] in ('budget', 'missing')) and v[0] not in skip]
        n = R.ok + len(bad) + len(und)
        self.obligations += max(n, 1)
        self.discharged += R.ok if n else 1
        if R.stats:
            self.functions |= R.stats['functions']
        for v in bad:
            self.viols.append(Viol(v[0], v[1], v[2], fn, v[3], R.label()))
        for v in und:
            self.undecided.append('%s: %s: %s (%s)' % (R.label(), v[0], v[1][:200], v[2]))
        if not bad and not und and len(self.samples) < 6:
            self.samples.append('%s: %d exits, %d obligations discharged' % (R.label(), R.exits, R.ok))

    def add_events(self, R, kinds):
        self.obligations += 1
        bad = [e for e in R.events if e.kind in kinds]
        if R.stats:
            self.functions |= R.stats['functions']
        if not bad:
            self.discharged += 1
        for e in bad:
            self.viols.append(Viol(e.kind, e.msg, e.loc, e.func, e.trace, R.label()))

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, rule, msg, loc='', func='', trace=(), ob=''):
        self.obligations += 1
        self.viols.append(Viol(rule, msg, loc, func, trace, ob))

    def undec(self, msg):
        self.obligations += 1
        self.undecided.append(msg)


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r'finding:\s+property=(\S+)\s+rule=(\S+)\s+func=(\S+)\s+match=/(.*?)/\s+(.*)$', l)
            if m:
                out.append(m.groups())
    return out


def finish(rep, t0, tier, technique):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    kf = [k for k in known() if k[0] == rep.pid]
    new, hit = [], {}
    seen = set()
    for v in rep.viols:
        k = next((k for k in kf if (k[1] in ('*', v.rule)) and (k[2] in ('*', v.func)) and re.search(k[3], v.msg)), None)
        if k is not None:
            hit[k] = v
            continue
        key = (v.rule, v.loc, v.func, v.msg)
        if key in seen:
            continue
        seen.add(key)
        new.append(v)
    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (rep.pid, k[4]))
    path = os.path.join(VERIF, 'evidence', rep.pid + '.violations.json')
    if new:
        json.dump([{'rule': v.rule, 'location': v.loc, 'function': v.func, 'message': v.msg, 'obligation': v.ob,
                    'path': ['%s: %s is %s' % (t[0], t[1], t[2]) for t in v.trace][-40:]} for v in new], open(path, 'w'), indent=1)
    elif os.path.exists(path):
        os.unlink(path)
    expl = '%s. Rules: %s. Analysed %d functions of the working tree, %d obligations, %d discharged, %d undecided (not counted as held).' % (
        technique, ' | '.join(rep.rules), len(rep.functions), rep.obligations, rep.discharged, len(rep.undecided))
    cov = {'explanation': expl,
           'functions_analysed': sorted('%s:%s' % f for f in rep.functions)[:400],
           'obligations': rep.obligations, 'discharged': rep.discharged,
           'undecided': rep.undecided[:60], 'samples': rep.samples[:12]}
    cov.update(rep.details)
    ev = {'property': rep.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', rep.pid + '.json'), 'w'), indent=1, default=str)
    for v in new[:12]:
        print(v.text())
        for t in v.trace[-14:]:
            print('    at %s: %s -> %s' % (t[0], t[1], t[2]))
    for u in rep.undecided[:8]:
        print('undecided: ' + u)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d known findings; %d functions analysed' % (
        rep.pid, rep.obligations, rep.discharged, len(rep.undecided), len(new), len(hit), len(rep.functions)))
    if new:
        print('VIOLATION property=%s replay=%s' % (rep.pid, path))
        return 1
    return 0
