"""Device attributes after prepare.  prepare is interpreted from an arbitrary
device, configuration and terminal; attribute words are bit vectors.  Every
bit, control character and speed of what was handed to the device is compared
with the previous value and the configuration, and the mode sequences sent with
the configuration and the capabilities."""
from .prep import *

ID = 'C05'
IFLAG = {'INLCR': 0o100, 'ICRNL': 0o400, 'IXON': 0o2000}
LFLAG = {'ISIG': 1, 'ICANON': 2, 'ECHO': 0o10}
VTIME, VMIN = 5, 6


class Fd(Locks):
    """Descriptor of the input device: what reads use."""
    names = ('held', 'out')
    split = False
    only_ok = True

    def __init__(self, ctx):
        Locks.__init__(self, ctx)
        self.fds = set()

    def call(self, E, st, c):
        if c.path in ('nix::unistd::read', 'libc::read'):
            self.fds.add(E.to_lin(st, c.args[0], c.argtys[0]))
        return Locks.call(self, E, st, c)


def read_fds(ctx, P):
    from .summ import Summ, classify

    class F(Fd, Summ):
        keep = frozenset(('read', 'lock'))

        def call(self, E, st, c):
            r = Fd.call(self, E, st, c)
            if r is None and c.path.startswith('sys::') and 'resume' in c.path or r is None and 'PrepareConfig' in str([E.T[t]['s'] for t in c.argtys if t is not None]):
                from .summ import havoc_args
                havoc_args(E, st, c)
                return [(st, E.mk(fresh('sum'), c.destty))]
            return r if r is not None else self.summarise(E, st, c)
    pl = F(ctx)
    pl.setup(P, classify, None, 'c05')
    E = Engine(P, [pl])
    E.coarse = True
    b = fn(P, "sys::terminal::TerminalReadGuard::<'a>::read_raw")
    st, args, R = EN.entry(E, b)
    pl.init(st)
    E.run(b, args, st)
    return pl.fds


def run(ctx):
    P = ctx.P()
    pl = Prep(ctx)
    pl.fds = set()
    r = Run(ctx, P, pl)
    E = r.E
    nm = r.prep.path.replace("::<'a>", '')

    def ob(c, rule, what):
        ctx.oblige(c, rule, nm, what, loc=r.prep.loc)

    def boolean(n):
        v, ty = r.conf(n)
        if v[0] != 'b':
            raise Anchor('configuration field ' + n)
        return v[1]
    block, flow = boolean('block_signals'), boolean('enable_control_flow')
    mouse, motion, keypad = boolean('enable_mouse'), boolean('always_track_motion'), boolean('enable_keypad')
    xterm = B.lor(pl.name_atom('eq', b'xterm'), pl.name_atom('starts_with', b'xterm-'))
    xmit = r.caps('KeypadXmit')
    first = pl.first[1]
    bits = 0
    for s, v in r.ok:
        tx = pl.get(s, 'tx')
        dev = s.g('dev')
        for nmf, i in sorted(pl.rawf.items()):
            ty = E.T[pl.raw]['variants'][0]['fields'][i][1]
            a, b = first[i], dev[1][i]
            if a[0] == 'bv':
                a, b = E.to_bv(s, a, ty), E.to_bv(s, b, ty)
                flags = {'c_iflag': IFLAG, 'c_lflag': LFLAG}.get(nmf, {})
                names = {v: k for k, v in flags.items()}
                for k, (x, y) in enumerate(zip(a, b)):
                    f = names.get(1 << k)
                    want = x if f is None else flow if f == 'IXON' else B.lnot(block) if f == 'ISIG' else 0
                    what = {None: 'changes bit %d of %s' % (k, nmf), 'IXON': 'output flow control does not follow the configuration',
                            'ISIG': 'delivery of signals for control characters does not follow the configuration'}.get(f, 'leaves %s set' % f)
                    bits += 1
                    ob(B.implies(s.bdd, B.iff(y, want)), 'attribute', what)
            elif nmf == 'c_cc':
                for k, (x, y) in enumerate(zip(a[1], b[1])):
                    bits += 1
                    l = E.to_lin(s, y, y[2] if len(y) > 2 else None)
                    if k in (VMIN, VTIME):
                        ob(s.ent_eq(l), 'attribute', 'leaves %s above zero' % ('VMIN' if k == VMIN else 'VTIME'))
                    else:
                        ob(s.ent_eq(L.sub(l, x[1])), 'attribute', 'changes control character %d' % k)
            else:
                bits += 1
                ob(B.implies(s.bdd, E.equal(s, a, b, ty)), 'attribute', 'changes ' + nmf)
        ob(pl.get(s, 'devs') >= 1, 'attribute', 'does not hand the attributes to the device')
        # keypad
        if sent(tx, 'KeypadXmit'):
            ob(B.implies(s.bdd, keypad), 'keypad', 'switches the keypad on although not asked to')
        elif xmit is not None:
            ob(B.land(s.bdd, B.land(keypad, xmit)) == 0, 'keypad', 'leaves the keypad off although asked for and supported')
        else:
            ob(False, 'keypad', 'never looks for the keypad capability')
        # mouse
        m = modes(tx)
        on = {n for n, x in m.items() if x and n in MOUSE}
        if on:
            ob(B.implies(s.bdd, mouse), 'mouse', 'switches the mouse on although not asked to')
            if pl.nametests:
                ob(B.implies(s.bdd, xterm), 'mouse', 'switches the mouse on although the terminal does not support it')
        elif pl.nametests:
            ob(B.land(s.bdd, B.land(mouse, xterm)) == 0, 'mouse', 'leaves the mouse off although asked for and supported')
        if on:
            ob(on & {1000, 1002, 1003} and 1006 in on, 'mouse', 'does not switch on both button reports and their SGR form')
        if 1003 in on:
            ob(B.implies(s.bdd, motion), 'mouse', 'tracks all motion although not asked to')
        elif on:
            ob(B.land(s.bdd, motion) == 0, 'mouse', 'does not track motion although asked to')
            ob(1002 in on, 'mouse', 'does not report motion while a button is held')
        ob(not any(not x for n, x in m.items() if n in MOUSE), 'mouse', 'switches a mouse mode off')
    # the device whose attributes are set is the one that is read
    rd = read_fds(ctx, P)
    ctx.floor('reads of the input device', len(rd), 1)
    for l, w, lc in sorted(pl.fds, key=str):
        ctx.oblige(any(r.st0.ent_eq(L.sub(l, x)) for x in rd), 'input-device', w, 'reads or sets the attributes of another device than the one that is read', loc=lc)
    if not pl.nametests:
        ctx.notes.append('support of the mouse is not decided by a comparison of the terminal name with constants; only the configuration is compared')
    ctx.engine(E)
    ctx.floor('successful paths', len(r.ok), 4)
    ctx.floor('attribute bits compared', bits, 500)
