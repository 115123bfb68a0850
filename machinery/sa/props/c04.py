"""Preparing and restoring.  prepare is interpreted from an arbitrary device,
configuration and terminal; from every state in which it succeeds, restore is
interpreted with the state it returned, and whatever the device, the signal
dispositions and the reported signals are afterwards is compared with what they
were before.  The life of a screen is decided by a typestate analysis of its
constructors and its destructor."""
from .prep import *
from .summ import Summ, havoc_args, classify

ID = 'C04'


def pair(ctx, P):
    pl = Prep(ctx)
    pl.fds = set()
    r = Run(ctx, P, pl)
    E = r.E
    nm = r.rest.path.replace("::<'a>", '')

    def ob(c, rule, what):
        ctx.oblige(c, rule, nm, what, loc=r.rest.loc)
    rs0, rsty = r.rfield(r.reader0, lambda t: t.get('path') == 'signal::SignalSet', 'reported signals')
    local = r.caps('KeypadLocal')
    n = 0
    for s, state in r.ok:
        tx, out = r.restore(s, state)
        on = {m for m, x in modes(tx).items() if x and m in MOUSE}
        for k, s2 in out:
            if k != 'Ok':
                continue
            n += 1
            for nmf, i in sorted(pl.rawf.items()):
                ty = E.T[pl.raw]['variants'][0]['fields'][i][1]
                ob(B.implies(s2.bdd, E.equal(s2, pl.first[1][i], s2.g('dev')[1][i], ty)), 'attributes', 'leaves %s of the device changed' % nmf)
            for sig, t in pl.get(s2, 'disp'):
                ob(t is tm('disp', sig), 'dispositions', 'leaves the disposition of %s changed' % sig)
            rs, _ = r.rfield(r.reader(s2), lambda t: t.get('path') == 'signal::SignalSet', 'reported signals')
            ob(B.implies(s2.bdd, E.equal(s2, rs0, rs, rsty)), 'reported', 'leaves the set of reported signals changed')
            tx2 = pl.get(s2, 'tx')
            m = modes(tx2)
            off = {x for x, v in m.items() if not v}
            ob(on <= off, 'mouse', 'leaves mouse mode %s on' % ', '.join(map(str, sorted(on - off))))
            if not on:
                ob(not off & MOUSE, 'mouse', 'switches mouse modes off that prepare did not switch on')
            ob(not any(v for x, v in m.items() if x in MOUSE), 'mouse', 'switches a mouse mode on')
            kp = any(t[0] == 'cap' and t[1] == 'KeypadLocal' for t in tx2)
            if sent(tx, 'KeypadXmit'):
                ob(kp or local is not None and B.land(s2.bdd, local) == 0, 'keypad', 'leaves the keypad on')
            else:
                ob(not kp, 'keypad', 'switches the keypad off although prepare did not switch it on')
            ob(not sent(tx2, 'KeypadXmit'), 'keypad', 'switches the keypad on')
    fds = {l for l, w, lc in pl.fds}
    ob(len(fds) == 1, 'attributes', 'saves, sets and restores the attributes of different devices')
    ctx.engine(E)
    ctx.floor('successful prepares', len(r.ok), 4)
    ctx.floor('successful restores', n, 4)


# ---------------------------------------------------------------- screens
PS = 'sys::terminal::PrepareState'


class Life(Locks, Summ):
    """prep: none, active, done; scr: out, in, left"""
    names = ('held', 'out', 'prep', 'scr')
    keep = frozenset(('lock', 'life', 'drop'))

    def __init__(self, ctx, P):
        Locks.__init__(self, ctx)
        self.setup(P, self.classes, lambda t: 'life' if t.get('path', '').startswith(('sys::screen::Screen', 'screen::Screen', 'sys::terminal::Terminal', 'terminal::Terminal')) else None, 'c04')
        self.events = set()

    @staticmethod
    def classes(path):
        if path in ('std::sync::Mutex::<T>::lock', 'std::sync::Mutex::<T>::try_lock'):
            return 'lock'
        if path.split('::')[-1] in ('enter_screen', 'exit_screen') or path.split('::')[-1].startswith(('prepare', 'restore')):
            return 'life'
        return None

    def init(self, st, held=()):
        Locks.init(self, st, held)
        self.set(st, 'prep', 'none')
        self.set(st, 'scr', 'out')

    def has_state(self, E, ty, depth=0):
        t = E.T[ty]
        if t.get('path') == PS:
            return True
        if t.get('path') in ('std::option::Option', 'std::result::Result'):
            return any(self.has_state(E, a) for a in t['args'] if isinstance(a, int))
        return False

    def call(self, E, st, c):
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        nm = (c.callee or {}).get('name', '')
        if b is None or not b.local or b.kind != 'fn' or not b.path.startswith('sys::terminal::'):
            return self.summarise(E, st, c) if b is not None and b.path != c.body.path else None
        if c.destty is not None and self.has_state(E, c.destty) and b.argc:
            # prepares: succeeds or fails
            self.events.add((where(E), 'prepare'))
            ok, er = st.copy(), st.copy()
            self.set(ok, 'prep', 'active')
            havoc_args(E, ok, c)
            havoc_args(E, er, c)
            pty = okty(E, c.destty)
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            return [(ok, E.variant(c.destty, 'Ok', (('sym', tm('prepared'), pty),))), (er, E.variant(c.destty, 'Err', (E.mk(fresh('e'), ety),)))]
        for a, ty in zip(c.args, c.argtys):
            if ty is not None and E.T[ty].get('path') == PS:
                self.events.add((where(E), 'restore'))
                if a[0] == 'sym' and a[1] is tm('prepared') and self.get(st, 'prep') == 'active':
                    self.set(st, 'prep', 'done')
                havoc_args(E, st, c)
                return [(st, E.mk(fresh('restored'), c.destty))]
        if nm in ('enter_screen', 'exit_screen'):
            self.events.add((where(E), nm))
            self.set(st, 'scr', 'in' if nm == 'enter_screen' else 'left')
            havoc_args(E, st, c)
            return [(st, E.mk(fresh(nm), c.destty))]
        return self.summarise(E, st, c)

    def on_panic(self, E, st, kind, l, chain):
        self.panics.append((kind, l, ['%s (%s)' % x for x in chain]))


def life(ctx, P):
    glue = fn(P, 'verif_witness::scr::drop_screen')
    n = ev = 0
    for path in sorted(p for p, b in methods(P, 'screen::Screen').items() if P.T[b.locals[0][0]].get('path') == 'std::result::Result'
                       and any(P.T[b.locals[i + 1][0]].get('path') == 'terminal::PrepareConfig' for i in range(b.argc))):
        body = fn(P, path)
        pl = Life(ctx, P)
        pl.panics = []
        E = Engine(P, [pl])
        E.coarse = True
        st, args, R = EN.entry(E, body)
        pl.init(st)
        n += 1

        def done(s, what):
            p, q = pl.get(s, 'prep'), pl.get(s, 'scr')
            ctx.oblige(p != 'active', 'screen-restores', path, what + ' leaves the terminal prepared', loc=body.loc)
            ctx.oblige(q != 'in', 'screen-exits', path, what + ' leaves the alternate screen on', loc=body.loc)
        for s0, v in E.run(body, args, st):
            for k, s in ret_split(E, s0, v):
                if k != 'Ok':
                    done(s, 'a failed creation')
                    continue
                ctx.oblige(pl.get(s, 'prep') == 'active', 'screen-prepares', path, 'creates a screen without preparing the terminal', loc=body.loc)
                ctx.oblige(pl.get(s, 'scr') == 'in', 'screen-enters', path, 'creates a screen without entering the alternate screen', loc=body.loc)
                pl.panics = []
                ends = E.run(glue, [E.payload(v, E.vix(v[1], 'Ok'), 0)], s)
                for kind, l, ch in pl.panics:
                    ctx.oblige(False, 'drop-completes', 'drop of a screen', 'can panic (%s) before the terminal is restored' % kind, loc=l, path=ch)
                ctx.oblige(bool(ends), 'drop-completes', 'drop of a screen', 'never returns', loc=glue.loc)
                for s1, _ in ends:
                    done(s1, 'dropping the screen')
        ev += len(pl.events)
        for w in sorted(pl.events):
            ctx.sample('events', '%s: %s' % w)
        ctx.engine(E)
    ctx.floor('screen constructors', n, 2)
    ctx.floor('prepare, restore, enter and exit calls', ev, 4)


def run(ctx):
    P = ctx.P()
    life(ctx, P)
    pair(ctx, P)
