#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property of /repo's
current tree by static analysis of its MIR.

exit 0: the property holds on everything analysed
exit 1: violated (a VIOLATION line names the replay file with every report)
exit 2: the check could not decide (build failure, missing anchor, budget)
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build                                           # noqa: E402

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.viol = {}            # key -> report
        self.cov = {}
        self.obl = {}             # rule -> [discharged, total]
        self.samples = {}
        self.progs = {}
        self.trusted = []
        self.floors = []
        self.notes = []

    def P(self, target='unix'):
        if target not in self.progs:
            from sa.mir import Program
            self.progs[target] = Program(build.dump(target))
        return self.progs[target]

    def violate(self, rule, where, what, **kw):
        """rule/where/what identify the violation (no line numbers)."""
        key = '%s @ %s: %s' % (rule, where, what)
        r = self.viol.setdefault(key, {'rule': rule, 'where': where, 'what': what})
        for k, v in kw.items():
            r.setdefault(k, v)
        o = self.obl.setdefault(rule, [0, 0])
        return o

    def ok(self, rule, n=1):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += n
        o[1] += n

    def bad(self, rule):
        self.obl.setdefault(rule, [0, 0])[1] += 1

    def oblige(self, cond, rule, where, what, **kw):
        if cond:
            self.ok(rule)
        else:
            self.bad(rule)
            self.violate(rule, where, what, **kw)

    def cover(self, name, n):
        self.cov[name] = n

    def sample(self, name, x):
        l = self.samples.setdefault(name, [])
        if len(l) < 12 and x not in l:
            l.append(x)

    def floor(self, name, n, least):
        """Fail closed: the number of instances counted by hand."""
        self.floors.append((name, n, least))
        self.cov[name] = n

    def engine(self, E):
        """Account for an engine run."""
        c = self.cov
        s = self.__dict__.setdefault('_fns', set())
        s.update(E.analysed)
        cs = self.__dict__.setdefault('_cs', set())
        cs.update(E.callsites)
        c['functions_analysed'] = len(s)
        sl = self.__dict__.setdefault('_lfns', set())
        sl.update(i for i in E.analysed if E.P.bodies[i].local)
        c['functions_of_mortal_analysed'] = len(sl)
        c['call_sites_analysed'] = len(cs)
        c['block_visits'] = c.get('block_visits', 0) + E.steps
        c['joins'] = c.get('joins', 0) + E.joins
        u = self.__dict__.setdefault('_unk', {})
        for k, v in E.unknown.items():
            u[k] = u.get(k, 0) + v


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line[len('finding: property=%s ' % pid):]
                if rest.startswith('key=['):
                    key, _, desc = rest[5:].partition('] ')
                    out[key] = desc
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module('sa.props.' + pid.lower())
    rc = 0
    err = None
    try:
        mod.run(ctx)
        for name, n, least in ctx.floors:
            if n < least and not ctx.viol:
                raise Undecided('only %d %s found, expected at least %d' % (n, name, least))
    except Exception as e:
        err = e
        if not ctx.viol:
            traceback.print_exc()
            print('UNDECIDED property=%s %s: %s' % (pid, type(e).__name__, e))
            rc = 2
    kf = known(pid)
    new = {k: v for k, v in ctx.viol.items() if k not in kf}
    for k in ctx.viol:
        if k in kf:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k, kf[k]))
    if new:
        d = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + '.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'violations': list(new.values())}, f, indent=1, default=str)
        for k, v in new.items():
            print('  %s  [%s]' % (k, v.get('loc', '')))
            for x in v.get('path', [])[:20]:
                print('      at %s' % (x,))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    chk = next((c for c in man['checks'] if c['property'] == pid), None)
    level = chk['level'] if chk else 'other'
    tot = sum(o[1] for o in ctx.obl.values())
    dis = sum(o[0] for o in ctx.obl.values())
    cov = dict(ctx.cov)
    cov['rules'] = {k: {'obligations': v[1], 'discharged': v[0]} for k, v in sorted(ctx.obl.items())}
    cov['obligations'] = tot
    cov['discharged'] = dis
    cov['samples'] = [{'kind': k, 'instances': v} for k, v in ctx.samples.items()] or [{'kind': 'rules', 'instances': sorted(ctx.obl)}]
    cov['floors'] = [{'name': a, 'found': b, 'least': c} for a, b, c in ctx.floors]
    cov['unmodelled_library_calls'] = ctx.__dict__.get('_unk', {})
    cov['violations'] = len(ctx.viol)
    cov['known_findings'] = [k for k in ctx.viol if k in kf]
    cov['explanation'] = (mod.__doc__ or '').strip()
    cov['checker_cmd'] = 'python3 machinery/check.py %s %s' % (pid, tier)
    cov['trusted_base'] = getattr(mod, 'TRUSTED', ['rustc MIR construction', 'library models: machinery/sa/models.py', 'abstract interpreter: machinery/sa/engine.py'])
    cov['notes'] = ctx.notes
    if err is not None:
        cov['error'] = '%s: %s' % (type(err).__name__, err)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if rc == 0:
        print('OK property=%s obligations=%d discharged=%d wall=%.1fs %s' % (
            pid, tot, dis, time.time() - t0, ' '.join('%s=%s' % (a, b) for a, b, _ in ctx.floors)))
    return rc


if __name__ == '__main__':
    sys.exit(main())
