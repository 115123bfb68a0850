"""C19: no terminal input, size or timeout makes the library panic.

Every function of the crate is interpreted from arbitrary arguments and an
arbitrary state, with every function it calls replaced by an arbitrary result
(induction over the depth of calls).  A function for which a panic remains is
interpreted again with what it calls; if one still remains, it is not taken to
be safe but interpreted as part of each of its callers (greatest fixpoint).
No public operation may remain."""
import signal
import time
from ..engine import Budget
from .summ import *
from .c03 import entries, held_by
from .c13 import scan_ops
from .c18 import is_decoder, shared_name, slice_arg, not_text, Decode

ID = 'C19'
DIM = 65535         # lines and columns, as terminals report them
FDS = 1023          # descriptors select can wait for
MICROS = (2 ** 63 - 1) // 1000000 - 1
UNIT_PER_SEC = {'seconds': 1, 'milliseconds': 10 ** 3, 'microseconds': 10 ** 6}
PANICS = ('<std::time::Instant as std::ops::Add<std::time::Duration>>::add', '<std::time::Duration as std::ops::Add>::add',
          '<std::time::Duration as std::ops::Mul<u32>>::mul', '<std::time::Duration as std::ops::AddAssign>::add_assign',
          '<std::time::Instant as std::ops::AddAssign<std::time::Duration>>::add_assign')


class Log:
    safe = frozenset()

    def on_panic(self, E, st, kind, l, chain):
        # a function taken to be safe answers for itself
        if any(f[0].id in self.safe for f in E.frames[1:]):
            return
        self.p.setdefault((where(E), kind, repr(l)), (l, chain))


class Panics(Log, Locks, Summ):
    split = False
    only_ok = True

    def __init__(self, ctx, P, entry, safe, deep):
        Locks.__init__(self, ctx)
        self.entry, self.safe, self.deep = entry, safe, deep
        self.p = {}
        self.used = set()
        self.contracts = set()
        self.dec = is_decoder(P)
        self.scans = {b.id for b in scan_ops(P)}

    def call(self, E, st, c):
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        r = self.requires(E, st, c)
        if r is not None:
            return r
        if c.path.endswith('::wrapping_neg'):
            return [(st, E.mk(fresh('neg'), c.destty))]
        inst = (c.callee or {}).get('inst')
        b = E.P.bodies.get(inst)
        if b is None:
            return None
        if self.dec(b) and inst != self.entry:
            return self.decoded(E, st, c, b)
        if inst not in self.safe or inst == self.entry and not E.frames:
            return None
        self.used.add(inst)
        buf = b.path.startswith('buffer::')
        if self.deep and not buf and (len(E.frames) <= self.deep or leaf(b)):
            return None
        for a, ty in zip(c.args, c.argtys):
            if ty is not None and (self.has_guard(E, ty) or E.T[ty]['k'] == 'closure'):
                return None
        if self.has_guard(E, c.destty):
            return None
        havoc_args(E, st, c)
        v = E.mk(fresh('sum', b.path), c.destty)
        if buf:
            self.bounded(E, st, c, b, v)
        return [(st, v)]

    def requires(self, E, st, c):
        """Operations of other crates that panic for some arguments."""
        p = c.path
        if 'TimeVal' in p or 'TimeSpec' in p:
            k = p.rsplit('::', 1)[-1]
            if k in UNIT_PER_SEC:
                n = UNIT_PER_SEC[k]
                hi = MICROS * n + n - 1 if 'TimeVal' in p else (2 ** 63 - 1) // (10 ** 9 // n)
                a = E.to_lin(st, c.args[0], c.argtys[0])
                if not (st.ent_ge(L.sub(L.const(hi), a)) and st.ent_ge(L.add(a, L.const(hi)))):
                    self.on_panic(E, st, 'time-value', c.loc, frames(E))
                return [(st, E.mk(fresh('time'), c.destty))]
        if p in PANICS:
            self.on_panic(E, st, 'time-overflow', c.loc, frames(E))
            return [(st, E.mk(fresh('time'), c.destty))]
        return None

    def decoded(self, E, st, c, b):
        """A decoded event is formed by one or more of the bytes (C18)."""
        self.contracts.add(b.id)
        T = E.T
        s = as_slice(E, st, c.args[slice_arg(E.P, b)], c.argtys[slice_arg(E.P, b)])
        oty = okty(E, c.destty)
        tt = T[oty]['args'][0]
        n = E.lensym(fresh('evlen'))
        out = []
        a = st.copy()
        if a.add_ge(L.add(n, L.const(-1))) and a.add_ge(L.sub(s[4], n)):
            out.append((a, E.variant(c.destty, 'Ok', (E.variant(oty, 'Some', (('st', (E.mk(fresh('event'), T[tt]['e'][0]), ('i', n, usize(E)))),)),))))
        out.append((st.copy(), E.variant(c.destty, 'Ok', (E.variant(oty, 'None', ()),))))
        st = not_text(E, st, s)
        if st is not None:
            ety = T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            out.append((st, E.variant(c.destty, 'Err', (E.mk(fresh('err'), ety),))))
        return out

    def bounded(self, E, st, c, b, v):
        """Sizes and positions of a screen are those of a terminal (C11, C13);
        the width of a text is at most its length."""
        us = usize(E)
        if b.id in self.scans:
            ix = E.vix(c.destty, 'Some')
            p = E.payload(v, ix, 0)
            for x in ints(E, p, E.T[c.destty]['variants'][ix]['fields'][0][1], lambda t: t.get('path') == 'terminal::Cursor'):
                st.add_ge(L.sub(L.const(DIM), x))
        elif v[0] == 'i' and v[2] == us:
            st.add_ge(L.sub(L.const(2 ** 62), v[1]))


def leaf(b):
    return len(b.blocks) <= 12 and not any(bl['t'][0] == 'call' for bl in b.blocks)


def ints(E, v, ty, want, inside=False):
    """Integers of the parts of a value whose type satisfies `want`."""
    t = E.T[ty]
    if v[0] == 'sym' and t['k'] in ('struct',):
        v = E.expand(v)
    if v[0] == 'i' and inside:
        yield v[1]
    if v[0] == 'st':
        tys = t['e'] if t['k'] == 'tuple' else [f[1] for f in t['variants'][0]['fields']]
        for x, u in zip(v[1], tys):
            yield from ints(E, x, u, want, inside or want(E.T[u]) or want(t))


class Decoding(Log, Decode):
    """The decoder, with what it calls by contract."""

    def __init__(self, nm):
        Decode.__init__(self, Quiet(), nm)
        self.p = {}
        self.used = set()
        self.contracts = set()

    def call(self, E, st, c):
        r = Decode.call(self, E, st, c)
        if r is not None and (c.callee or {}).get('inst') in E.P.bodies:
            self.contracts.add(c.callee['inst'])
        return r


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def engine(P, pl):
    E = Engine(P, [pl])
    E.nobits = 64
    orig = E.mkfield

    def mkfield(term, sty, i, fty):
        if sty is not None and E.T[sty].get('path') == 'sys::terminal::Terminal' and E.T[fty]['s'] == 'i32':
            return ('i', L.var(L.sym(term, 0, FDS)), fty)
        return orig(term, sty, i, fty)
    E.mkfield = mkfield
    return E


def panics(ctx, P, b, safe, deep, coarse):
    if is_decoder(P)(b):
        return decoder_panics(ctx, P, b)
    pl = Panics(ctx, P, b.id, safe, deep)
    E = engine(P, pl)
    E.coarse = coarse
    st, args, R = EN.entry(E, b)
    st.setg('bad', UNIT)
    st.setg('badlen', ('i', L.const(0), usize(E)))
    held = []
    for i, a in enumerate(args):
        held += held_by(E, st, a, b.locals[i + 1][0], pl)
    pl.init(st, held)
    E.run(b, args, st)
    return pl, E


def decoder_panics(ctx, P, b):
    from .c18 import setup_decoder
    pl = Decoding(b.path)
    E = engine(P, pl)
    st, args, R = EN.entry(E, b)
    setup_decoder(E, P, pl, b, st, args)
    E.run(b, args, st)
    return pl, E


def functions(P):
    return sorted((b for b in P.bodies.values() if b.local and b.kind == 'fn' and not b.generic and '{closure' not in b.path
                   and not b.path.startswith('buffer::')), key=lambda b: b.path)


class Late(Exception):
    pass


def limited(stats, f):
    """f() within the time left, at most a minute; else None."""
    def late(*a):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    t = time.time()
    signal.alarm(max(1, int(min(60, stats['left']))))
    try:
        return f()
    except (Late, Budget):
        return None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        stats['left'] -= time.time() - t


def examine(ctx, P):
    """Greatest fixpoint of the functions that cannot panic -> ({id: panics}, stats)"""
    fs = functions(P)
    safe = {b.id for b in P.bodies.values() if b.local and b.kind == 'fn' and not b.generic and '{closure' not in b.path and 'verif_witness' not in b.path}
    by = {b.id: b for b in fs}
    users, bad, stats, conts = {}, {}, {'deep': 0, 'left': 240}, set()
    work = [b.id for b in fs]
    E = None
    while work:
        f = work.pop(0)
        try:
            pl, E = panics(ctx, P, by[f], safe, 0, False)
        except Budget:
            pl, E = panics(ctx, P, by[f], safe, 0, True)
        if pl.p:
            stats['deep'] += 1
        for deep in (1, 2, 4):
            # more of what it calls, as far as that can be afforded
            if pl.p and f in safe and stats['left'] > 0:
                r = limited(stats, lambda: panics(ctx, P, by[f], safe, deep, False))
                if r is not None:
                    r[0].used |= pl.used
                    pl, E = r
        ctx.engine(E)
        for g in pl.contracts - conts:
            by.setdefault(g, P.bodies[g])
            if g not in work:
                work.append(g)
        conts |= pl.contracts
        for g in pl.used:
            users.setdefault(g, set()).add(f)
        if pl.p:
            bad[f] = pl.p
            if f in safe:
                safe.discard(f)
                for u in users.get(f, ()):
                    if u not in work and u not in bad:
                        work.append(u)
    return bad, safe, conts, stats, fs


def run(ctx):
    P = ctx.P()
    bad, safe, conts, stats, fs = examine(ctx, P)
    ent = {b.id for b in entries(P)}
    n = 0
    for b in fs + [P.bodies[x] for x in sorted(conts) if P.bodies[x] not in fs]:
        if b.id not in ent and b.id not in conts and 'verif_witness' not in b.path:
            continue
        n += 1
        for (w, kind, l), (loc_, chain) in sorted(bad.get(b.id, {}).items()) or [((None,) * 3, (None, None))]:
            ctx.oblige(w is None, 'no-panic', w or shared_name(b), 'may panic (%s)' % kind, loc=loc_ or b.loc, path=chain, entry=shared_name(b))
    from .cells import fixpoint
    for p, r in sorted(fixpoint(ctx, P)[1].items()):
        nm = p.replace('buffer::', '')
        for (w, kind, _), (l, chain) in sorted(r.pl.panics.items(), key=repr):
            ctx.violate('no-panic', w, '%s may panic (%s)' % (nm, kind), loc=l, path=chain, entry=nm)
        ctx.ok('no-panic', 1)
        ctx.engine(r.E)
        n += 1
    ctx.floor('functions examined', len(fs), 150)
    ctx.floor('public operations', n, 60)
    ctx.cover('functions that cannot panic', len([b for b in fs if b.id in safe]))
    ctx.notes.append('taken from other properties: ' + ', '.join(sorted(P.bodies[x].path for x in conts)))
    ctx.notes.append('panic outside their documented range, and are examined with their callers: ' + ', '.join(sorted(P.bodies[x].path for x in bad)))
