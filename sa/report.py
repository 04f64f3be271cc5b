"""Collecting obligations, violations and undecided places of one check, and writing them out."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, repo):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.t0 = time.time()
        self.obs = []          # (description, state)
        self.viol = []
        self.und = []
        self.stats = {}
        self.samples = []
        self.assume = []
        self.rules = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, text):
        self.rules.append(text)

    def assumption(self, text):
        if text not in self.assume:
            self.assume.append(text)

    def ok(self, what, n=1):
        self.obs.append((what, 'ok'))
        if n > 1:
            self.stat('facts', n)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violation(self, key, where, msg, path=()):
        """key: stable identity (construct + rule), where: file:line, msg: what is wrong"""
        if any(v['key'] == key and v['where'] == str(where) for v in self.viol):
            return
        self.obs.append((key, 'violated'))
        self.viol.append({'key': key, 'where': str(where), 'message': msg, 'path': [str(p) for p in path]})

    def undecided(self, key, where, msg):
        self.obs.append((key, 'undecided'))
        self.und.append({'key': key, 'where': str(where), 'reason': str(msg)[:400]})

    def require(self, cond, key, where, msg):
        if cond:
            self.ok(key)
        else:
            self.violation(key, where, msg)
        return cond


def known_findings():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                f = dict(x.split('=', 1) for x in ln.split()[1:3])
                out.append((f['property'], f['key'], ' '.join(ln.split()[3:])))
    return out


def finish(ctx, interp=None):
    known = {(p, k): d for p, k, d in known_findings()}
    real, listed = [], []
    for v in ctx.viol:
        (listed if (ctx.pid, v['key']) in known else real).append(v)
    for k in sorted({v['key'] for v in listed}):
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, known[(ctx.pid, k)]))
    for u in ctx.und:
        print('UNDECIDED property=%s %s at %s: %s' % (ctx.pid, u['key'], u['where'], u['reason'][:200]))
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    for k, v in enumerate(real):
        path = os.path.join(ev, 'replay', '%s-%d.json' % (ctx.pid, k))
        json.dump({'property': ctx.pid, **v}, open(path, 'w'), indent=1)
        print('%s: %s [%s]' % (v['where'], v['message'], v['key']))
        for p in v['path'][:12]:
            print('    ' + p)
        print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
    n = len(ctx.obs)
    good = sum(1 for _, s in ctx.obs if s == 'ok')
    cov = {'explanation': '%d obligations decided from the source by the rules below, %d hold, %d undecided, %d violated. Rules: %s'
           % (n - len(ctx.und), good, len(ctx.und), len(real) + len(listed), ' | '.join(ctx.rules)),
           'obligations': n, 'discharged': good, 'undecided': ctx.und[:50],
           'obligation_list': [w + ('' if s == 'ok' else ' [%s]' % s) for w, s in ctx.obs][:400], 'analysed': dict(ctx.stats)}
    if interp is not None:
        cov['analysed'].update({'functions_analysed': len(interp.visited_fns), 'call_sites_evaluated': interp.call_sites,
                                'loops_summarised': interp.loops, 'abstract_steps': interp.steps})
        cov['functions'] = sorted(str(x) for x in interp.visited_fns)[:300]
    out = {'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
           'assumptions': ctx.assume, 'wall_s': round(time.time() - ctx.t0, 3),
           'violations': len(ctx.viol)}
    cov['violation_list'] = [{'key': v['key'], 'where': v['where'], 'message': v['message'], 'known': v in listed} for v in ctx.viol]
    json.dump(out, open(os.path.join(ev, '%s.json' % ctx.pid), 'w'), indent=1, default=str)
    if real:
        return 1
    if good == 0 and not listed:
        print('UNDECIDED property=%s nothing was decided' % ctx.pid)
    print('OK property=%s obligations=%d discharged=%d undecided=%d known=%d wall=%.1fs' % (ctx.pid, n, good, len(ctx.und), len(listed), time.time() - ctx.t0))
    return 0
