"""Queued output is offered before anyone can wait for it.  The length of the
output queue and the outcome of the device writes since bytes were last queued
are followed through every public operation and destructor.  Rules: whenever
the terminal write lock is released the queue is empty, or a device write
failed after the last bytes were queued; flush, refresh, prepare and restore
return success only with an empty queue; restore hands back the device
attributes only with an empty queue."""
from .summ import *
from .c03 import entries, held_by, mutexes

ID = 'C02'


def classify2(path):
    e = classify(path)
    if e:
        return e
    if path.endswith('::tcsetattr') or path == 'libc::tcsetattr':
        return 'attrs'
    return None


class Queue(Locks, Summ):
    keep = frozenset(('lock', 'write', 'attrs', 'drop'))
    names = ('held', 'out', 'werr')

    def __init__(self, ctx, P, entry, op):
        Locks.__init__(self, ctx)
        self.setup(P, classify2, lambda t: 'drop' if t.get('path', '').endswith('MutexGuard') else None, 'c02')
        self.entry, self.op = entry, op
        self.nested = {}
        self.releases = self.writes = self.attrs = 0

    def empty(self, st):
        b = self.E.getp(st, self.E.rcell(st, self.cell), self.fpath, None, self.cell, ())
        return b[0] == 'seq' and st.ent_eq(b[1])

    def key(self, st):
        return (Locks.key(self, st), self.empty(st))

    def on_release(self, E, st, name, l):
        if name != self.wname:
            return
        self.releases += 1
        self.ctx.oblige(self.empty(st) or self.get(st, 'werr'), 'release-offers-queue', where(E),
                        'releases the terminal write lock with output neither sent nor refused by the device', loc=l, path=frames(E), entry=self.entry)

    def seq(self, E, st, op, cell, path, kw):
        if cell == self.cell and op in ('append', 'push', 'extend', 'insert'):
            self.set(st, 'werr', False)
        return None

    def at_summary(self, E, st, c, eff):
        # may queue output if it is given the guard
        if any(ty is not None and E.T[ty]['k'] == 'ref' and EN.contains_guard(E, E.T[ty]['e']) for ty in c.argtys):
            self.set(st, 'werr', False)

    def call(self, E, st, c):
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        e = classify2(c.path)
        if e == 'write':
            s = as_slice(E, st, c.args[1], c.argtys[1])
            self.writes += 1
            n = E.lensym(fresh('io'))
            out = []
            a = st.copy()
            if a.add_ge(L.sub(s[4], n)) and a.add_ge(L.sub(n, L.const(1))):
                out.append((a, E.variant(c.destty, 'Ok', (('i', n, okty(E, c.destty)),))))
            z = st.copy()
            self.set(z, 'werr', True)
            out.append((z, E.variant(c.destty, 'Ok', (('i', L.const(0), okty(E, c.destty)),))))
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            err = E.mk(fresh('errno'), ety)
            intr = E.en_is(err, [v['name'] for v in E.T[ety]['variants']].index('EINTR'))
            i = st.copy()
            if E.assume(i, intr) is not None:
                out.append((i, E.variant(c.destty, 'Err', (err,))))
            f = st.copy()
            if E.assume(f, B.lnot(intr)) is not None:
                self.set(f, 'werr', True)
                out.append((f, E.variant(c.destty, 'Err', (err,))))
            return out
        if e == 'attrs' and self.op == 'restore':
            self.attrs += 1
            self.ctx.oblige(self.empty(st), 'restore-order', where(E), 'puts the device attributes back while output is queued', loc=c.loc, path=frames(E), entry=self.entry)
            return None
        if e:
            return None
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        if b is not None and b.local and b.kind == 'fn' and 'lock' in self.effects.of(b.id) and '{closure' not in b.path \
                and not self.has_guard(E, c.destty) and not any(ty is not None and (self.has_guard(E, ty) or self.guard_arg(E, ty)) for ty in c.argtys):
            # takes and releases its locks itself: analysed as an entry of its own
            self.nested[b.id] = b
            havoc_args(E, st, c)
            return [(st, E.mk(fresh('sum', b.path), c.destty))]
        r = self.summarise(E, st, c)
        if r is None and E.coarse and b is not None and b.local and 'write' in self.effects.of(b.id) and 'lock' not in self.effects.of(b.id) \
                and b.id in E.P.bodies and '{closure' not in b.path:
            # the writing loops need exact lengths
            E.coarse = False
            try:
                r = E.run(b, c.args, st, c.ctx)
            finally:
                E.coarse = True
            for s, _ in r:
                v = E.getp(s, E.rcell(s, self.cell), self.fpath, None, self.cell, ())
                if v[0] == 'seq' and s.ent_eq(v[1]):
                    E.put(s, self.cell, self.fpath, ('seq', L.const(0), v[2], v[3]), None)
        return r

    def guard_arg(self, E, ty):
        t = E.T[ty]
        while t['k'] in ('ref', 'ptr'):
            ty = t['e']
            t = E.T[ty]
        return t['k'] == 'closure' or self.writer_guard(E, ty)

    def writer_guard(self, E, ty, depth=0):
        t = E.T[ty]
        if depth > 5:
            return False
        if t.get('path', '').endswith('MutexGuard'):
            return E.tname(t['args'][-1]) == self.wname
        if t['k'] in ('struct', 'enum') and t['local']:
            return any(self.writer_guard(E, f[1], depth + 1) for v in t['variants'] for f in v['fields'])
        if t['k'] in ('struct', 'enum'):
            return any(isinstance(a, int) and self.writer_guard(E, a, depth + 1) for a in t.get('args', ()))
        if t['k'] == 'tuple':
            return any(self.writer_guard(E, a, depth + 1) for a in t['e'])
        return False


OPS = ('flush', 'refresh', 'prepare', 'restore')


def opname(path):
    m = path.split('::')[-1]
    for o in OPS:
        if m == o or m == o + '_with_lock':
            return o
    return None


def run(ctx):
    P = ctx.P()
    n = rel = wr = att = succ = 0
    todo = entries(P)
    seen = set(b.id for b in todo)
    while todo:
        b = todo.pop()
        op = opname(b.path)
        pl = Queue(ctx, P, b.path, op)
        E = Engine(P, [pl])
        pl.E = E
        E.coarse = True
        pl.wname = mutexes(E)['writer']
        st, args, R = EN.entry(E, b)
        data, wty = writer_cell(E, R)
        i, fty = field_of_type(E, wty, is_vec_u8(E), 'output buffer')
        pl.cell, pl.fpath = data[1], data[2] + (('f', i, fty),)
        held = []
        for k, a in enumerate(args):
            held += held_by(E, st, a, b.locals[k + 1][0], pl)
        pl.init(st, held)
        pl.set(st, 'werr', False)
        res = E.run(b, args, st)
        n += 1
        for i2, b2 in pl.nested.items():
            if i2 not in seen:
                seen.add(i2)
                todo.append(b2)
        if pl.wname not in held:
            op = None        # locks and forwards: decided at the operation it forwards to
        rel += pl.releases
        wr += pl.writes
        att += pl.attrs
        for s0, v in res:
            for k, s in ret_split(E, s0, v):
                if k == 'Ok' and op:
                    succ += 1
                    ctx.oblige(pl.empty(s), 'success-means-sent', b.path, 'returns success with output still queued', loc=b.loc)
        ctx.engine(E)
    ctx.floor('operations', n, 60)
    ctx.floor('lock releases', rel, 20)
    ctx.floor('device writes', wr, 20)
    ctx.floor('attribute changes while restoring', att, 2)
    ctx.floor('success returns', succ, 6)
