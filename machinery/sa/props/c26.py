"""Lock results.  Every locking operation of the public interface is
interpreted with each involved mutex free, poisoned or (for the trying
variants) held, the outcome being fixed per mutex along a path.  On every
return path: an ordinary guard iff every mutex was free; a poison error iff
none was held and one was poisoned, carrying a guard over all involved
mutexes; "would block" iff one was held, and then no lock stays held; trying
variants call only try_lock.  Analysed on both platforms' MIR."""
from .locks import *

ID = 'C26'


class P26(Locks):
    def __init__(self, ctx, name, try_):
        Locks.__init__(self, ctx)
        self.fname, self.try_ = name, try_

    def on_acquire(self, E, st, name, c, try_):
        self.ctx.oblige(try_ or not self.try_, 'try-never-waits', self.fname, 'a trying operation calls lock() and may wait', loc=c.loc, path=frames(E))

    def on_panic(self, E, st, kind, l, chain):
        if not kind.startswith(('panic', 'diverges')):
            return            # index arithmetic while a released guard flushes: C01, C19
        self.ctx.bad('no-panic')
        self.ctx.violate('no-panic', self.fname, 'a locking operation panics (%s)' % kind, loc=l)


def one(ctx, P, target, body, try_, n):
    nm = '%s (%s)' % (body.path, target)
    pl = P26(ctx, nm, try_)
    E = Engine(P, [pl])
    E.coarse = True
    st, args, R = EN.entry(E, body)
    pl.init(st)
    res = E.run(body, args, st)
    seen = set()
    for s, v in res:
        out = dict(pl.get(s, 'out'))
        held = pl.get(s, 'held')
        k = is_ok(E, v)
        if k is None:
            raise Anchor('result of ' + nm)
        g = sorted(pl.name(E, x[1]) for x in guards_in(v))
        inner = v[3][0][1][0] if v[3] else None
        if k == 'Err' and try_:
            k = is_ok(E, inner) if inner and inner[0] == 'en' else k
        bad = [m for m, o in out.items() if o == 'poisoned']
        busy = [m for m, o in out.items() if o == 'held']
        seen.add((k, bool(bad), bool(busy)))
        what = 'with %s' % ', '.join('%s %s' % (m, o) for m, o in sorted(out.items()))
        if k == 'Ok':
            ctx.oblige(not bad and not busy, 'ordinary-guard', nm, 'returns an ordinary guard ' + what, loc=body.loc)
        elif k in ('Err', 'Poisoned'):
            ctx.oblige(bad and not busy, 'poison-error', nm, 'returns a poison error ' + what, loc=body.loc)
        elif k == 'WouldBlock':
            ctx.oblige(bool(busy), 'would-block', nm, 'reports contention ' + what, loc=body.loc)
        else:
            raise Anchor('variant %s of %s' % (k, nm))
        if k != 'WouldBlock':
            ctx.oblige(len(g) == n and g == sorted(held), 'guard-complete', nm, 'the guard covers %d lock(s) of %d %s' % (len(g), n, what), loc=body.loc)
            ctx.oblige(len(out) == n, 'all-locks', nm, 'acquires %d lock(s) instead of %d' % (len(out), n), loc=body.loc)
        else:
            ctx.oblige(not held, 'pair-released', nm, 'leaves %s held %s' % (held, what), loc=body.loc)
    want = [('Ok', False, False)] + [('Poisoned' if try_ else 'Err', True, False)] + ([('WouldBlock', False, True)] if try_ else [])
    for w in want:
        ctx.oblige(w in seen, 'outcome-reachable', nm, 'never returns %s' % w[0], loc=body.loc)
    ctx.engine(E)
    return len(res)


def run(ctx):
    nf = paths = 0
    for target in ('unix', 'windows'):
        P = ctx.P(target)
        for ty, m, n in (('terminal::Terminal', 'read', 1), ('terminal::Terminal', 'write', 1), ('screen::Screen', 'read', 1), ('screen::Screen', 'write', 2)):
            for try_ in (False, True):
                paths += one(ctx, P, target, fn(P, '%s::%slock_%s' % (ty, 'try_' if try_ else '', m)), try_, n)
                nf += 1
    ctx.cover('return_states', paths)
    ctx.floor('locking operations', nf, 16)
