"""Lock order.  Every public operation of terminals, screens and their guards,
and every destructor, is interpreted with the set of guards alive on the path
(including temporaries); every mutex is free, poisoned or, for try-locking,
held.  Rules: a blocking acquisition takes a lock ranking above every lock held
(read lock, terminal write lock, screen data); input calls happen only under
the read lock, output calls only under the write lock; releasing a guard
(which also happens during unwinding) acquires nothing; every guard acquired by
an operation that returns none is released when it returns."""
from .summ import *

ID = 'C03'


class Order(Locks, Summ):
    keep = frozenset(('lock',))

    def __init__(self, ctx, P, rank, entry):
        Locks.__init__(self, ctx)
        self.setup(P)
        self.rank, self.entry = rank, entry
        self.io = 0
        self.acq = set()
        self.no_acquire = False

    def ob(self, E, c, rule, what, l=None):
        self.ctx.oblige(c, rule, where(E), what, loc=l or loc(E), path=frames(E), entry=self.entry)

    def on_acquire(self, E, st, nm, c, try_):
        held = self.get(st, 'held')
        self.acq.add((nm, 'try' if try_ else 'lock', where(E)))
        if nm not in self.rank:
            raise Anchor('mutex over %s' % nm)
        self.ob(E, not self.no_acquire, 'release-acquires-nothing', 'the release of a guard acquires the lock of %s' % nm, c.loc)
        if try_:
            return
        self.ob(E, nm not in held, 'no-double-acquisition', 'waits for the lock of %s, which it already holds' % nm, c.loc)
        for h in held:
            if h != nm:
                self.ob(E, self.rank[h] < self.rank[nm], 'lock-order', 'waits for the lock of %s while holding that of %s' % (nm, h), c.loc)

    def device(self, E, st, eff, what, l):
        held = self.get(st, 'held')
        for e in sorted(eff):
            if e in ('read', 'wait'):
                self.io += 1
                self.ob(E, self.names_of['reader'] in held, 'input-under-read-lock', '%s without holding the read lock' % what, l)
            if e == 'write':
                self.io += 1
                self.ob(E, self.names_of['writer'] in held, 'output-under-write-lock', '%s without holding the write lock' % what, l)

    def at_summary(self, E, st, c, eff):
        self.device(E, st, eff, 'calls %s, which does device I/O,' % c.path, c.loc)

    def call(self, E, st, c):
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        e = classify(c.path)
        if e:
            self.device(E, st, {e}, 'calls ' + c.path, c.loc)
            return None
        return self.summarise(E, st, c)


def mutexes(E):
    """Names of the three protected types, found through the guard types."""
    out = {}
    for k, g in (('reader', 'sys::terminal::TerminalReadGuard'), ('writer', 'sys::terminal::TerminalWriteGuard'), ('screen', 'sys::screen::ScreenWriteGuard')):
        gt = EN.local_ty(E, g)
        if gt is None:
            raise Anchor('type ' + g)
        l = [E.T[f[1]] for f in E.T[gt]['variants'][0]['fields'] if E.T[f[1]].get('path', '').endswith('MutexGuard')]
        if len(l) != 1:
            raise Anchor('mutex guard in ' + g)
        out[k] = E.tname(l[0]['args'][-1])
    return out


def entries(P):
    out = []
    for b in P.bodies.values():
        if not b.local or b.kind != 'fn' or b.generic:
            continue
        if b.path.startswith(('terminal::Terminal', 'screen::Screen')) and b.vis == 'pub' and '{closure' not in b.path:
            out.append(b)
        elif b.path.startswith(('verif_witness::term::', 'verif_witness::scr::')) and '{closure' not in b.path:
            out.append(b)
        elif b.impl_trait and b.path.startswith(('<terminal::Terminal', '<screen::Screen')) and '{closure' not in b.path and b.argc:
            out.append(b)
    return sorted(out, key=lambda b: b.path)


def held_by(E, st, a, ty, pl):
    """Locks held by the guards inside an argument."""
    v = E.deref(st, a) if a[0] == 'ref' and E.T[ty]['k'] == 'ref' else a
    return [pl.name(E, g[1]) for g in guards_in(v)]


def target(ctx, tgt):
    P = ctx.P(tgt)
    n = io = 0
    acq = set()
    for b in entries(P):
        E = None
        pl = Order(ctx, P, {}, '%s (%s)' % (b.path, tgt))
        E = Engine(P, [pl])
        E.coarse = True
        pl.names_of = mutexes(E)
        pl.rank = {pl.names_of['reader']: 0, pl.names_of['writer']: 1, pl.names_of['screen']: 2}
        st, args, R = EN.entry(E, b)
        held = []
        for i, a in enumerate(args):
            held += held_by(E, st, a, b.locals[i + 1][0], pl)
        pl.init(st, held)
        pl.no_acquire = 'drop_read' in b.path or 'drop_write' in b.path
        by_value = [E.T[b.locals[i + 1][0]]['k'] != 'ref' for i in range(b.argc)]
        kept = []
        for i, a in enumerate(args):
            if not by_value[i]:
                kept += held_by(E, st, a, b.locals[i + 1][0], pl)
        for s0, v in E.run(b, args, st):
            got = sorted(kept + [pl.name(E, g[1]) for g in guards_in(v)])
            # a guard inside the returned value may be conditional on its variant
            h = list(pl.get(s0, 'held'))
            ctx.oblige(set(h) <= set(got), 'released-at-return', b.path, 'returns while still holding %s' % sorted(set(h) - set(got)), loc=b.loc)
        n += 1
        io += pl.io
        acq |= pl.acq
        ctx.engine(E)
    for a in sorted(acq):
        ctx.sample('acquisitions (%s)' % tgt, '%s of %s in %s' % (a[1], a[0], a[2]))
    ctx.floor('operations (%s)' % tgt, n, 60)
    ctx.floor('device call evaluations (%s)' % tgt, io, 10)
    ctx.floor('acquisition sites (%s)' % tgt, len(acq), 6)


def run(ctx):
    target(ctx, 'unix')
    target(ctx, 'windows')
