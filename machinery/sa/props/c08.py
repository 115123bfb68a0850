"""What continue and resize signals do to the operation that takes them.

Reading operations are interpreted with the number the handler stores for
SIGCONT or SIGWINCH pending or arriving (see sig.py): before such a signal has
been consumed and the operation succeeds, the terminal must have been prepared
with exactly the configuration of the active prepare (and not at all without
one), or the event must carry the size the device was asked for after the
signal.  prepare must record its configuration, restore must put back the
record that prepare found, and a new terminal must have none.  Reading
operations of screens are interpreted with an arbitrary outcome of the
terminal's operation: a resize must have reached the buffer and the flag that
makes refresh start from a cleared screen."""
from .prep import *
from .sig import Reading, handler_store, events, readers, configs, deep_types, gone
from .c07 import handler_body

ID = 'C08'


def run(ctx):
    P = ctx.P()
    cell, vals, both = recorded(ctx, P)
    initial(ctx, P)
    taking(ctx, P, cell, vals)
    pairs(ctx, P, cell, vals, both)
    screens(ctx, P)


def is_record(E):
    return lambda t: t.get('path') == 'std::option::Option' and 'PrepareConfig' in deep_types(E, t['args'][0])


def differ(E, s, a, b, ty):
    """Can the two values differ?  Compares field by field."""
    if a[0] == 'sym':
        a = E.expand(a)
    if b[0] == 'sym':
        b = E.expand(b)
    if a == b:
        return False
    t = E.T[ty]
    if t['k'] == 'struct' and t['local'] and a[0] == b[0] == 'st':
        return any(differ(E, s, x, y, f[1]) for x, y, f in zip(a[1], b[1], t['variants'][0]['fields']))
    if a[0] == b[0] == 'en':
        for k in E.live_variants(ty):
            n, m = E.en_is(a, k), E.en_is(b, k)
            if B.land(s.bdd, B.lor(B.land(n, B.lnot(m)), B.land(m, B.lnot(n)))) != 0:
                return True
            both = B.land(s.bdd, n)
            if both == 0:
                continue
            s2 = s.copy()
            s2 = E.assume(s2, n)
            for i, f in enumerate(t['variants'][k]['fields']):
                if differ(E, s2, E.payload(a, k, i), E.payload(b, k, i), f[1]):
                    return True
        return False
    if t['k'] in ('int', 'uint', 'char', 'bool') or a[0] in ('i', 'bv', 'b'):
        try:
            eq = E.equal(s, a, b, ty)
        except Exception:
            return True
        return B.land(s.bdd, B.lnot(eq)) != 0
    return True


def recorded(ctx, P):
    r = Run(ctx, P, Prep(ctx))
    E, pl = r.E, r.pl
    nm, rn = [b.path.replace("::<'a>", '') for b in (r.prep, r.rest)]
    old, oty = r.rfield(r.reader0, is_record(E), 'configuration to resume with')
    hs = set()
    for s, state in r.ok:
        v, _ = r.rfield(r.reader(s), is_record(E), 'configuration to resume with')
        if v[0] == 'sym':
            v = E.expand(v)
        some = E.en_is(v, E.vix(v[1], 'Some'))
        ctx.oblige(B.land(s.bdd, B.lnot(some)) == 0, 'prepare-records', nm, 'can succeed without recording a configuration to resume with', loc=r.prep.loc)
        c, cty = configs(E, v)
        ctx.oblige(c is not None and not differ(E, s, c, r.config, cty), 'prepare-records', nm,
                   'can record a configuration to resume with that is not the one it was given', loc=r.prep.loc)
        for sig, a in dict(pl.get(s, 'disp')).items():
            if a.parts[0] == 'action' and a.parts[1] == 'Handler':
                hs.add(a.parts[2])
        tx, after = r.restore(s, state)
        for k, s2 in after:
            if k != 'Ok':
                continue
            v2, _ = r.rfield(r.reader(s2), is_record(E), 'configuration to resume with')
            ctx.oblige(not differ(E, s2, v2, old, oty), 'restore-records', rn, 'can leave a configuration to resume with that is not the one before prepare', loc=r.rest.loc)
    ctx.floor('ways prepare can succeed', len(r.ok), 2)
    out = None
    for v in hs:
        b = handler_body(E, v)
        out = b and handler_store(ctx, P, b)
    if out is None:
        raise Anchor('signal handler')
    return out


def initial(ctx, P):
    """A new terminal has no configuration to resume with."""
    n = 0
    E = Engine(P, [])
    for b in P.bodies.values():
        for bl in b.blocks:
            for s in bl['s']:
                if s[0] != '=' or s[2][0] != 'agg' or s[2][1] != 'adt':
                    continue
                t = P.T[s[2][4]]
                if t['k'] != 'struct' or not t['local'] or not t.get('path', '').startswith('sys::terminal::'):
                    continue
                fs = t['variants'][0]['fields']
                if 'SignalSet' not in [P.T[f[1]].get('path', '').split('::')[-1] for f in fs] or t.get('path', '').endswith(('PrepareState', 'PrepareConfig')):
                    continue
                i = [k for k, f in enumerate(fs) if is_record(E)(P.T[f[1]])]
                if len(i) != 1:
                    continue
                n += 1
                ctx.oblige(none_operand(P, b, s[2][3][i[0]]), 'starts-without', b.path, 'creates a reader with a configuration to resume with', loc=b.loc)
    ctx.floor('places that create the reader', n, 1)


def none_operand(P, b, o):
    """Is the operand Option::None (a constant, or a local only ever set to it)?"""
    if o[0] == 'const':
        return 'agg' in str(o) or 'None' in str(o)
    if o[0] in ('move', 'copy') and not o[1][1]:
        defs = [s[2] for bl in b.blocks for s in bl['s'] if s[0] == '=' and s[1][0] == o[1][0]]
        calls = [bl['t'] for bl in b.blocks if bl['t'][0] == 'call' and bl['t'][3][0] == o[1][0]]
        return not calls and bool(defs) and all(d[0] == 'agg' and d[1] == 'adt' and P.T[d[4]]['variants'][d[2]]['name'] == 'None' or
                                               d[0] == 'use' and none_operand(P, b, d[1]) for d in defs)
    return False


def taking(ctx, P, cell, vals):
    bodies = readers(P, 'terminal')
    conts = sizes = 0
    for b in bodies:
        nm = b.path.replace("::<'a>", '').replace("<'a>", '')
        for sig in ('SIGCONT', 'SIGWINCH', 'SIGINT'):
            for arrives in (False, True):
                r = Reading(ctx, P, b, cell, vals[sig], arrives)
                E, pl = r.E, r.pl
                how = 'when %s %s' % (sig, 'arrives while it waits' if arrives else 'is pending')

                def ob(c, rule, what):
                    ctx.oblige(c, rule, nm, what + ' ' + how, loc=b.loc)
                some = E.en_is(r.resume0, E.vix(r.resume0[1], 'Some'))
                for k, s, v in r.out:
                    got, prep = pl.get(s, 'taken'), pl.get(s, 'prep')
                    if got and sig == 'SIGCONT':
                        conts += 1
                        if not prep:
                            ob(B.land(s.bdd, some) == 0, 'resume-prepares', 'can consume it without preparing the terminal again')
                        else:
                            ob(B.land(s.bdd, B.lnot(some)) == 0, 'resume-only-active', 'can prepare the terminal without an active prepare')
                            c0, cty = configs(E, r.resume0)
                            ob(c0 is not None and not differ(E, s, s.g('conf'), c0, cty), 'resume-configuration', 'can prepare the terminal with another configuration')
                            ob(prep == 1, 'resume-prepares', 'can prepare the terminal more than once')
                    else:
                        ob(not prep, 'resume-only-continue', 'can prepare the terminal')
                    if k != 'Ok':
                        continue
                    for ev, s1, val in events(E, s, v):
                        if sig == 'SIGWINCH' and got:
                            ob(ev == 'Resize', 'resize-event', 'can consume it and return %s' % (ev or 'nothing'))
                        if ev == 'Resize':
                            sizes += 1
                            ob(got and pl.get(s1, 'wins'), 'resize-queries', 'can report a size without asking the device')
                            ob(same_size(E, s1, val, s1.g('size')), 'resize-queries', 'can report a size other than what the device answered')
    ctx.floor('reading operations', len(bodies), 4)
    ctx.floor('results with a continue signal', conts, 4)
    ctx.floor('resize events', sizes, 4)


def pairs(ctx, P, cell, vals, both):
    """With two signals pending, neither takes the place of the other."""
    n = 0
    for (x, y), v in sorted(both.items()):
        if {x, y} & {'SIGCONT', 'SIGWINCH'}:
            ctx.oblige(v not in (0, vals[x], vals[y]), 'handler-keeps', 'signal handler', 'forgets %s when %s arrives before it has been read' % (x, y))
    for b in readers(P, 'terminal'):
        nm = b.path.replace("::<'a>", '').replace("<'a>", '')
        for (x, y), value in sorted(both.items()):
            if not {x, y} & {'SIGCONT', 'SIGWINCH'}:
                continue
            r = Reading(ctx, P, b, cell, value, False)
            E, pl = r.E, r.pl
            some = E.en_is(r.resume0, E.vix(r.resume0[1], 'Some'))
            for k, s, v in r.out:
                if k != 'Ok':
                    continue
                g = gone(pl, s, vals, both, x, y)
                how = 'when %s and %s are pending' % (x, y)
                ctx.oblige(g is not None, 'pair-kept', nm, 'can leave a number that stands for neither ' + how, loc=b.loc)
                n += len(g or ())
                if 'SIGCONT' in (g or ()) and not pl.get(s, 'prep'):
                    ctx.oblige(B.land(s.bdd, some) == 0, 'pair-kept', nm, 'can consume SIGCONT without preparing the terminal again ' + how, loc=b.loc)
                if 'SIGWINCH' in (g or ()):
                    for ev, s1, val in events(E, s, v):
                        ctx.oblige(ev == 'Resize', 'pair-kept', nm, 'can consume SIGWINCH without reporting a resize ' + how, loc=b.loc)
    ctx.floor('signals taken of two', n, 8)


def same_size(E, s, v, rc):
    """Does Size value v hold the (row, column) answer of the device?"""
    if v[0] == 'sym':
        ty = v[2]
        v = E.expand(v)
    if v[0] != 'st' or rc[0] != 'st':
        return False
    size = next(i for i, t in enumerate(E.T) if t.get('path') == 'terminal::Size' and t['k'] == 'struct')
    names = [f[0] for f in E.T[size]['variants'][0]['fields']]
    for n, want in (('lines', rc[1][0]), ('columns', rc[1][1])):
        x = v[1][names.index(n)]
        if x[0] != 'i' or want[0] != 'i' or not s.ent_eq(L.sub(x[1], want[1])):
            return False
    return True


class Adopt(Locks):
    """A screen's reading operation over an arbitrary terminal reading operation."""
    names = ('held', 'out', 'done')
    split = False
    only_ok = True

    def __init__(self, ctx):
        Locks.__init__(self, ctx)
        self.calls = 0

    def key(self, st):
        return tuple(st.mem.get(('G', n)) for n in ('held', 'done'))

    def call(self, E, st, c):
        t = E.T[c.destty] if c.destty is not None else {}
        if c.path.startswith('sys::terminal::') and 'Option<terminal::Event>' in t.get('s', ''):
            self.calls += 1
            out = []
            rty = t
            oty = rty['variants'][E.vix(c.destty, 'Ok')]['fields'][0][1]
            ety = E.T[oty]['variants'][E.vix(oty, 'Some')]['fields'][0][1]
            ix = E.vix(ety, 'Resize')
            sty = E.T[ety]['variants'][ix]['fields'][0][1]
            a = st.copy()
            if self.get(st, 'done') == '-':
                size = E.mk(fresh('size'), sty)
                self.set(a, 'done', 'resize')
                a.setg('size', size)
                a.setg('facts', size)
                out.append((a, E.variant(c.destty, 'Ok', (E.variant(oty, 'Some', (E.variant(ety, 'Resize', (size,)),)),))))
            b = st.copy()
            ev = E.mk(fresh('ev'), ety)
            if ev[0] == 'sym':
                ev = E.expand(ev)
            if E.assume(b, B.lnot(E.en_is(ev, ix))) is not None:
                out.append((b, E.variant(c.destty, 'Ok', (E.variant(oty, 'Some', (ev,)),))))
            out.append((st.copy(), E.variant(c.destty, 'Ok', (E.variant(oty, 'None', ()),))))
            x = st.copy()
            out.append((x, E.variant(c.destty, 'Err', (E.mk(fresh('err'), rty['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]),))))
            return out
        return Locks.call(self, E, st, c)


def screens(ctx, P):
    bodies = readers(P, 'screen')
    n = 0
    for b in bodies:
        nm = b.path.replace("::<'a>", '').replace("<'a>", '')
        pl = Adopt(ctx)
        E = Engine(P, [pl])
        E.coarse = True
        st, args, R = EN.entry(E, b)
        pl.init(st)
        pl.set(st, 'done', '-')
        st.setg('size', UNIT)
        st.setg('facts', UNIT)
        wty = next(i for i, t in enumerate(E.T) if t.get('path') == 'sys::screen::Writer' and t['k'] == 'struct')
        gty = screen_mutex(E, R)
        from ..models import mutex_data
        d = mutex_data(E, gty, wty)
        fi, fty = field_of_type(E, wty, lambda t: t['k'] == 'bool', 'clear flag of the screen')
        bi, bty = field_of_type(E, wty, lambda t: t.get('path') == 'buffer::ScreenBuffer', 'buffer of the screen')
        si, sty = field_of_type(E, bty, lambda t: t.get('path') == 'terminal::Size', 'size of the buffer')
        for s, v in E.run(b, args, st):
            for k, s1 in ret_split(E, s, v):
                if pl.get(s1, 'done') != 'resize':
                    continue
                n += 1
                w = E.getp(s1, E.rcell(s1, d[1]), d[2], None, d[1], ())
                if w[0] == 'sym':
                    w = E.expand(w)
                fl, bu = w[1][fi], w[1][bi]
                ctx.oblige(fl[0] == 'b' and B.land(s1.bdd, B.lnot(fl[1])) == 0, 'screen-clears', nm,
                           'can return a resize without making the next refresh start from a cleared screen', loc=b.loc)
                if bu[0] == 'sym':
                    bu = E.expand(bu)
                ctx.oblige(not differ(E, s1, bu[1][si], s1.g('size'), sty), 'screen-size', nm,
                           'can return a resize without the buffer having that size', loc=b.loc)
                p = E.payload(v, E.vix(v[1], k), 0)
                evs = events(E, s1, p) if k == 'Ok' else []
                ctx.oblige(k == 'Ok' and [e for e, _, _ in evs] == ['Resize'] and not differ(E, s1, evs[0][2], s1.g('size'), sty),
                           'screen-passes-on', nm, 'can return something other than the resize it read', loc=b.loc)
        ctx.oblige(pl.calls > 0, 'screen-reads', nm, 'does not read from the terminal', loc=b.loc)
    ctx.floor('reading operations of screens', len(bodies), 4)
    ctx.floor('resizes of screens', n, 4)


def screen_mutex(E, R):
    sty = R.screen_ty
    i, mty = field_of_type(E, sty, lambda t: t.get('path', '').endswith('sync::Mutex'), 'mutex of the screen')
    ref = (R.screen[0], R.screen[1], R.screen[2] + (('f', i, mty),))
    return ref
