"""Signals: what prepare installs, what the handler stores and what the reading
operations make of it.

prepare is interpreted for an arbitrary configuration and device: the
dispositions it changes are compared, signal by signal, with the set's own
membership test; a restore from each resulting state must put back what was
there.  The handler is interpreted for each signal number; the number it stores
is then pending at, or arrives during, each reading operation, and what the
operation returns is compared with the name of that signal."""
from .prep import *
from .sig import Reading, handler_store, events, readers, gone, NUM

ID = 'C07'


def run(ctx):
    P = ctx.P()
    h = installed(ctx, P)
    if h is None:
        return
    report(ctx, P, h)


def installed(ctx, P):
    r = Run(ctx, P, Prep(ctx), signals=True)
    E, pl = r.E, r.pl
    nm = r.prep.path.replace("::<'a>", '')

    def ob(c, rule, what, body=None):
        b = body or r.prep
        ctx.oblige(c, rule, b.path.replace("::<'a>", ''), what, loc=b.loc)
    want, wty = r.conf('report_signals')
    handlers = set()
    seen = 0
    for s, state in r.ok:
        disp = dict(pl.get(s, 'disp'))
        for sig, name in NAMES.items():
            asked = r.contains(s, want, wty, name)
            if sig in ('SIGCONT', 'SIGWINCH'):
                ob(sig in disp, 'always-handled', 'can leave %s without a handler' % sig)
            elif sig in disp:
                ob(B.land(s.bdd, B.lnot(asked)) == 0, 'only-asked', 'can install a handler for %s although %s is not to be reported' % (sig, name))
            else:
                ob(B.land(s.bdd, asked) == 0, 'asked-installed', 'can leave %s as it was although %s is to be reported' % (sig, name))
        for sig, a in disp.items():
            seen += 1
            if sig not in NAMES:
                ob(False, 'only-asked', 'changes the disposition of %s' % sig)
                continue
            p = a.parts
            good = p[0] == 'action' and p[1] == 'Handler' and p[2] is not None and p[2][0] == 'fn'
            ob(good, 'handler', 'installs something other than a handler function for %s' % sig)
            if good:
                handlers.add(p[2])
        now, ty = r.rfield(r.reader(s), lambda t: t.get('path') == 'signal::SignalSet', 'reported signals')
        for name in NAMES.values():
            a = r.contains(s, want, wty, name)
            b = r.contains(s, now, ty, name)
            ob(B.land(s.bdd, B.lor(B.land(a, B.lnot(b)), B.land(b, B.lnot(a)))) == 0, 'set-recorded',
               'after success the signals to report can differ from the configuration about %s' % name)
        tx, after = r.restore(s, state)
        before, _ = r.rfield(r.reader0, lambda t: t.get('path') == 'signal::SignalSet', 'reported signals')
        for k, s2 in after:
            if k != 'Ok':
                continue
            d = dict(pl.get(s2, 'disp'))
            for sig in sorted(set(NAMES) | set(d)):
                ob(sig not in d, 'disposition-restored', 'can leave %s with a disposition other than the one before prepare' % sig, r.rest)
            for name in NAMES.values():
                now, ty = r.rfield(r.reader(s2), lambda t: t.get('path') == 'signal::SignalSet', 'reported signals')
                a, b = r.contains(s2, before, ty, name), r.contains(s2, now, ty, name)
                ob(B.land(s2.bdd, B.lor(B.land(a, B.lnot(b)), B.land(b, B.lnot(a)))) == 0, 'set-restored',
                   'the signals reported afterwards can differ from those before prepare about %s' % name, r.rest)
    ctx.floor('ways prepare can succeed', len(r.ok), 2)
    ctx.floor('installed handlers seen', seen, 4)
    hs = set()
    for v in sorted(handlers, key=repr):
        b = handler_body(E, v)
        if b is None:
            raise Anchor('handler function %r' % (v,))
        st = handler_store(ctx, P, b)
        if st is None:
            ctx.violate('stored-number', b.path, 'does not store exactly the number of the signal in one place', loc=b.loc)
            return None
        hs.add((st[0], tuple(sorted(st[1].items())), tuple(sorted(st[2].items()))))
        vals = list(st[1].values())
        ctx.oblige(len(set(vals)) == len(vals) and 0 not in vals, 'stored-number', b.path, 'stores the same number for two signals, or none', loc=b.loc)
        for (x, y), v in sorted(st[2].items()):
            ctx.oblige(v not in (0, st[1][x], st[1][y]), 'handler-keeps', b.path, 'forgets %s when %s arrives before it has been read' % (x, y), loc=b.loc)
    if len(hs) != 1:
        raise Anchor('%d different signal handlers' % len(hs))
    (cell, one, two), = hs
    return cell, dict(one), dict(two)


def handler_body(E, v):
    k = v[1]
    for b in E.P.bodies.values():
        if b.id == k or b.path == k:
            return b
    return None


def report(ctx, P, h):
    cell, vals, both = h
    n = 0
    free = [x for x in range(1, 65) if x not in vals.values()][:: (1 if ctx.thorough else 31)]
    cases = [(nm, vals[nm]) for nm in NUM] + [(None, x) for x in free]
    bodies = readers(P, 'terminal')
    taken = 0
    for b in bodies:
        nm = b.path.replace("::<'a>", '').replace("<'a>", '')
        for sig, value in cases:
            name = NAMES.get(sig)
            for arrives in (False, True):
                r = Reading(ctx, P, b, cell, value, arrives)
                E, pl = r.E, r.pl
                how = 'when %s %s' % (sig or 'signal %d' % value, 'arrives while it waits' if arrives else 'is pending')

                def ob(c, rule, what):
                    ctx.oblige(c, rule, nm, what + ' ' + how, loc=b.loc)
                if pl.others:
                    raise Anchor('other atomics used while reading in %s' % sorted(pl.others))
                for k, s, v in r.out:
                    if k != 'Ok':
                        continue
                    got = pl.get(s, 'taken')
                    if got:
                        taken += 1
                    for ev, s1, val in events(E, s, v):
                        n += 1
                        if ev == 'Signal':
                            ob(got, 'signal-from-nothing', 'can report a signal without taking one')
                            for y, s2 in ret_split(E, s1, val):
                                ob(name is not None and y == name, 'reported-name', 'can report %s' % y)
                                if y in NAMES.values():
                                    ob(B.land(s2.bdd, B.lnot(r.contains(s2, y))) == 0, 'not-asked-not-reported', 'can report %s although it was not asked for' % y)
                        elif got and name and name != 'Resize':
                            ob(B.land(s1.bdd, r.contains(s1, name)) == 0, 'asked-reported', 'can drop the signal although it was asked for (returns %s)' % (ev or 'nothing'))
                        if ev == 'Resize':
                            ob(got and name == 'Resize', 'signal-from-nothing', 'can report a resize')
                        if ev is None and not arrives and not got and name:
                            ob(False, 'pending-noticed', 'can return nothing and leave the signal pending')
    pairs = 0
    for b in bodies:
        nm = b.path.replace("::<'a>", '').replace("<'a>", '')
        for (x, y), value in sorted(both.items()):
            if not ctx.thorough and b is not bodies[0] and b is not bodies[-1]:
                continue
            r = Reading(ctx, P, b, cell, value, False)
            E, pl = r.E, r.pl
            for k, s, v in r.out:
                if k != 'Ok':
                    continue
                g = gone(pl, s, vals, both, x, y)
                how = 'when %s and %s are pending' % (x, y)
                ctx.oblige(g is not None, 'pair-kept', nm, 'can leave a number that stands for neither ' + how, loc=b.loc)
                for ev, s1, val in events(E, s, v):
                    for z in g or ():
                        pairs += 1
                        name = NAMES[z]
                        if name == 'Resize':
                            continue
                        names = [(n, s2) for n, s2 in ret_split(E, s1, val)] if ev == 'Signal' else [(None, s1)]
                        for n2, s2 in names:
                            ctx.oblige(n2 == name or B.land(s2.bdd, r.contains(s2, name)) == 0, 'pair-kept', nm,
                                       'can drop %s although it was asked for %s' % (z, how), loc=b.loc)
    ctx.floor('signals taken of two', pairs, 20)
    ctx.floor('reading operations', len(bodies), 4)
    ctx.floor('results with a signal taken', taken, 40)
    ctx.cover('results examined', n)
