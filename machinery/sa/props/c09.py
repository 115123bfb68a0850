"""Interrupted device calls.  Every public operation that returns a result and
can reach a read, wait or write on the device is interpreted; each such call
may be interrupted, with or without a signal of ours having arrived.  After an
interruption the operation must make a call of the same kind again, or (for
reads and waits) have noticed the signal, before it returns: an error returned
earlier surfaces the interruption, a success gives up.  The slice handed to a
repeated write is checked with the stream accounting of C01."""
from .sig import *
from .c03 import entries, held_by
from .c07 import handler_body, NAMES
from . import c01

ID = 'C09'
KIND = {}
for p in READS:
    KIND[p] = 'read'
for p in WAITS:
    KIND[p] = 'wait'
for p in WRITES:
    KIND[p] = 'write'


class Intr(Sig):
    """intr: kind of device call that was interrupted and not dealt with since"""
    names = Sig.names + ('intr',)
    keep = frozenset(('read', 'wait', 'write', 'sig', 'prep'))

    def __init__(self, ctx, P, cell, value):
        Sig.__init__(self, ctx, P, cell, value, True)
        c = sclasses(P)
        Summ.setup(self, P, lambda p: 'write' if p in WRITES else c(p), None, 'c09')
        self.calls = {}
        self.entry_id = None
        self.intrs = 0

    def key(self, st):
        return Sig.key(self, st) + (st.mem.get(('G', 'intr')),)

    def init(self, st, held=()):
        Sig.init(self, st, held)
        self.set(st, 'intr', '')

    def raw(self, p):
        return p.startswith('libc::')

    def call(self, E, st, c):
        k = KIND.get(c.path)
        if k:
            if self.raw(c.path):
                raise Anchor('call of %s in %s' % (c.path, where(E)))
            self.calls.setdefault(k, set()).add((where(E), tuple(c.loc) if isinstance(c.loc, list) else c.loc))
            before = self.get(st, 'intr')
            if before == k:
                self.set(st, 'intr', '')
            if k == 'write':
                out = []
                a = st.copy()
                s = as_slice(E, st, c.args[1], c.argtys[1])
                n = E.lensym(fresh('io'))
                if a.add_ge(L.sub(s[4], n)):
                    out.append((a, E.variant(c.destty, 'Ok', (('i', n, okty(E, c.destty)),))))
                ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
                # (whatever else can go wrong; taking it for an interruption does no harm here)
                out.append((st.copy(), E.variant(c.destty, 'Err', (E.mk(fresh('errno'), ety),))))
            else:
                out = Sig.call(self, E, st, c)
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            for s, v in out:
                # interrupted by our own signal?
                if is_ok(E, v) == 'Err' and self.get(s, 'pend') and not self.get(st, 'pend'):
                    self.set(s, 'intr', k)
                    self.intrs += 1
            i = st.copy()                        # by a signal of somebody else
            self.set(i, 'intr', k)
            self.intrs += 1
            out.append((i, E.variant(c.destty, 'Err', (eintr(E, ety),))))
            return out
        if atom_op(c.path) and self.get(st, 'pend') and self.get(st, 'intr') in ('read', 'wait'):
            r = Sig.call(self, E, st, c)
            for s, _ in r or ():
                self.set(s, 'intr', '')          # the signal is noticed
            return r
        if c.path == 'libc::ioctl':
            return None
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        if b is not None and b.local and b.kind == 'fn' and '{closure' not in b.path and self.effects.of(b.id) == {'write'} \
                and b.id != self.entry_id and E.T[c.destty].get('path') == 'std::result::Result' \
                and not self.has_guard(E, c.destty) and not any(self.has_guard(E, t) for t in c.argtys):
            out = self.outcomes(E.P, b)
            if out is not None:
                havoc_args(E, st, c)
                r = []
                for k, i in sorted(out):
                    s = st.copy()
                    if i:
                        self.set(s, 'intr', i)
                    ty = E.T[c.destty]['variants'][E.vix(c.destty, k)]['fields'][0][1]
                    r.append((s, E.variant(c.destty, k, (E.mk(fresh('res'), ty),))))
                return r
        r = Sig.call(self, E, st, c)
        if r is None and E.coarse and b is not None and b.local and 'write' in self.effects.of(b.id) and self.writes_only(E, b):
            # the writing loops need exact lengths
            E.coarse = False
            try:
                r = E.run(b, c.args, st, c.ctx)
            finally:
                E.coarse = True
        return r

    def writes_only(self, E, b):
        return self.effects.of(b.id) == {'write'} and self.effects.weight(b.id) < SMALL and '{closure' not in b.path

    def outcomes(self, P, b):
        """{(Ok or Err, interruption not dealt with)} of an operation that only
        writes, from any state."""
        m = P.__dict__.setdefault('_c09', {})
        if b.id not in m:
            m[b.id] = None         # recursive: inline
            try:
                m[b.id] = analyse(self.ctx, P, b, self.cell_, self.value)
            except Anchor:
                pass
            if m[b.id] is None:
                return None
        if m[b.id] is None:
            return None
        out, pl, n = m[b.id]
        for k, v in pl.calls.items():
            self.calls.setdefault(k, set()).update(v)
        return out

    def on_prepare(self, E, st, c):
        # the terminal is prepared: an operation of its own
        self.set(st, 'intr', '')


def analyse(ctx, P, b, cell, value):
    pl = Intr(ctx, P, cell, value)
    pl.entry_id = b.id
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, b)
    E.coarse = not pl.writes_only(E, b)
    try:
        pl.anchor_reader(E, R, st)
    except Anchor:
        pl.rdata = None
    held = []
    for k, a in enumerate(args):
        held += held_by(E, st, a, b.locals[k + 1][0], pl)
    pl.init(st, held)
    out = set()
    for s0, v in E.run(b, args, st):
        for k, s in ret_split(E, s0, v):
            out.add((k, pl.get(s, 'intr')))
    ctx.engine(E)
    return out, pl, len(out)


def run(ctx):
    P = ctx.P()
    h = None
    from .prep import Run, Prep
    r = Run(ctx, P, Prep(ctx))
    hs = {a.parts[2] for s, _ in r.ok for a in dict(r.pl.get(s, 'disp')).values() if a.parts[0] == 'action' and a.parts[1] == 'Handler'}
    for v in hs:
        h = handler_store(ctx, P, handler_body(r.E, v))
    if h is None:
        raise Anchor('signal handler')
    cell, one, _ = h
    n = errs = 0
    calls = {}
    intrs = 0
    for b in entries(P):
        t = P.T[b.locals[0][0]]
        if t.get('path') != 'std::result::Result' or 'std::io::Error' not in t['s']:
            continue
        eff = Intr(ctx, P, cell, one['SIGINT']).effects
        if not eff.of(b.id) & {'read', 'wait', 'write'}:
            continue
        out, pl, k = P.__dict__.setdefault('_c09', {}).get(b.id) or analyse(ctx, P, b, cell, one['SIGINT'])
        n += 1
        nm = b.path.replace("::<'a>", '').replace("<'a>", '')
        for k, i in sorted(out):
            ctx.oblige(not i or k != 'Err', 'no-interruption-error', nm, 'can return an error after an interrupted %s without making the call again' % i, loc=b.loc)
            ctx.oblige(not i or k == 'Err', 'no-giving-up', nm, 'can return success after an interrupted %s without making the call again or noticing a signal' % i, loc=b.loc)
        for k, v in pl.calls.items():
            calls.setdefault(k, set()).update(v)
        intrs += pl.intrs
    for k in sorted(calls):
        for s in sorted(calls[k], key=repr):
            ctx.sample('device calls', '%s: %s %s' % (k, s[0], s[1]))
        ctx.floor('%s calls' % k, len(calls[k]), 1)
    ctx.floor('kinds of device calls', len(calls), 3)
    ctx.floor('operations', n, 40)
    ctx.floor('interruptions explored', intrs, 10)
    c01.run(ctx)
