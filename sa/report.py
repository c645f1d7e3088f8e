"""Collecting obligations and verdicts, and writing evidence."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.violations = []      # dict(where, rule, msg, detail)
        self.undecided = {}
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.pruned = 0
        self.functions = set()
        self.callsites = set()
        self.rules = []
        self.samples = []
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.min_obligations = 1

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def fail(self, where, rule, msg, detail=None):
        self.obligations += 1
        for v in self.violations:
            if v['where'] == where and v['rule'] == rule and v['msg'] == msg:
                v['times'] += 1
                return
        self.violations.append({'where': where, 'rule': rule, 'msg': msg, 'detail': detail, 'times': 1})

    def undec(self, why, n=1):
        self.obligations += n
        self.undecided[why] = self.undecided.get(why, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def mark(self):
        """Snapshot of the verdicts, to take a path's verdict back."""
        return ([dict(v) for v in self.violations], dict(self.undecided), self.obligations, self.discharged,
                list(self.samples), dict(self.counts))

    def reset(self, m):
        v, self.undecided, self.obligations, self.discharged, self.samples, self.counts = m
        self.violations[:] = v

    def absorb(self, I):
        self.functions |= I.functions
        self.callsites |= I.callsites

    def merge(self, d):
        """Merge the dict form produced by dump() in a worker."""
        for v in d['violations']:
            for w in self.violations:
                if (w['where'], w['rule'], w['msg']) == (v['where'], v['rule'], v['msg']):
                    w['times'] += v['times']
                    break
            else:
                self.violations.append(v)
        for k, n in d['undecided'].items():
            self.undecided[k] = self.undecided.get(k, 0) + n
        for f in ('obligations', 'discharged', 'paths', 'pruned'):
            setattr(self, f, getattr(self, f) + d[f])
        self.functions |= set(d['functions'])
        self.callsites |= set(map(tuple, d['callsites']))
        for r in d['rules']:
            self.rule(r)
        for s in d['samples']:
            self.sample(s)
        for k, n in d['counts'].items():
            self.count(k, n)

    def dump(self):
        return {'violations': self.violations, 'undecided': self.undecided, 'obligations': self.obligations,
                'discharged': self.discharged, 'paths': self.paths, 'pruned': self.pruned,
                'functions': sorted(self.functions), 'callsites': sorted(map(list, self.callsites)),
                'rules': self.rules, 'samples': self.samples, 'counts': self.counts}


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def finish(ctx):
    """Write evidence, print the verdict, return the exit code."""
    known = [k for k in known_findings() if k.get('property') == ctx.pid and k.get('status') == 'known']
    new, old = [], []
    for v in ctx.violations:
        hit = next((k for k in known if k['where_fn'] in (v.get('detail') or {}).get('function', '') + '|' + v['where']
                    and k['rule'] == v['rule']), None)
        (old if hit else new).append((v, hit))
    for v, k in old:
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k['what']))
    ev = {
        'property': ctx.pid,
        'tier': ctx.tier,
        'seed': ctx.seed,
        'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the source under /repo/concept_formation (parsed, not executed): '
                           + '; '.join(ctx.rules),
            'obligations': ctx.obligations,
            'discharged': ctx.discharged,
            'undecided': ctx.undecided,
            'abstract_paths': ctx.paths,
            'pruned_paths': ctx.pruned,
            'functions_analysed': sorted(ctx.functions),
            'call_sites_analysed': len(ctx.callsites),
            'counts': ctx.counts,
            'samples': ctx.samples or ['(none)'],
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 3),
        'violations': len(new),
    }
    if new:
        ev['coverage']['violations'] = [v for v, _ in new]
    d = os.environ.get('SA_OUT') or os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    rp = os.path.join(d, ctx.pid + '.violation.txt')
    if new:
        with open(rp, 'w') as f:
            f.write('property %s, tier %s\n' % (ctx.pid, ctx.tier))
            f.write('re-run: cd %s && VERIF_TIER=%s python3 -m sa.run %s\n\n' % (HERE, ctx.tier, ctx.pid))
            for v, _ in new:
                f.write('%s\n  rule: %s\n  %s\n' % (v['where'], v['rule'], v['msg']))
                if v.get('detail'):
                    f.write('  detail: %s\n' % json.dumps(v['detail'], default=str))
                f.write('\n')
        for v, _ in new[:8]:
            print('%s: [%s] %s' % (v['where'], v['rule'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print('%s: %d obligations, %d discharged, %d undecided, %d abstract paths, %d functions, %.1fs' % (
        ctx.pid, ctx.obligations, ctx.discharged, sum(ctx.undecided.values()), ctx.paths, len(ctx.functions),
        time.time() - ctx.t0))
    for k, n in list(ctx.undecided.items())[:5]:
        print('  undecided x%d: %s' % (n, k))
    if ctx.obligations < ctx.min_obligations:
        print('ERROR: too few obligations were generated (%d)' % ctx.obligations)
        return 2
    return 0
