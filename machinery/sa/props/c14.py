"""C14: the remembered colours and style are those in force on the terminal.

Every attribute operation of the write guard is interpreted from an arbitrary
state in which what is remembered equals what a ghost terminal has in force.
Sequences sent change the ghost: setting a colour by its number, entering and
leaving a style, the reset of everything.  At every successful return the ghost,
the remembered values and the values the operation's name asks for must agree.
A nested call of another of these operations is replaced by that statement
(each is checked on its own: induction over the depth of calls) provided that
ghost and memory agree where it is called; otherwise it is interpreted too.
Every capability is taken to be provided."""
from .tx import *
from . import summ
from .c13 import touches
from .c27 import has

ID = 'C14'
WG = "sys::terminal::TerminalWriteGuard"
BITS = {'Bold': 0, 'Italic': 1, 'Reverse': 2, 'Underline': 3}
ENTER = {'EnterBoldMode': 'BOLD', 'EnterItalicsMode': 'ITALIC', 'EnterReverseMode': 'REVERSE', 'EnterUnderlineMode': 'UNDERLINE'}
LEAVE = {'ExitItalicsMode': 'ITALIC', 'ExitUnderlineMode': 'UNDERLINE'}
STYLES = ('BOLD', 'ITALIC', 'REVERSE', 'UNDERLINE')
NUMBERS = {'Black': 0, 'Red': 1, 'Green': 2, 'Yellow': 3, 'Blue': 4, 'Magenta': 5, 'Cyan': 6, 'White': 7}
# what an operation asks for: (fg, bg, style) from the old ones and the arguments
OPS = {
    'clear_attributes': lambda o, a: (None, None, [0] * 4),
    'set_fg': lambda o, a: (a[0], o[1], o[2]),
    'set_bg': lambda o, a: (o[0], a[0], o[2]),
    'set_style': lambda o, a: (o[0], o[1], a[0]),
    'add_style': lambda o, a: (o[0], o[1], [B.lor(x, y) for x, y in zip(o[2], a[0])]),
    'remove_style': lambda o, a: (o[0], o[1], [B.land(x, B.lnot(y)) for x, y in zip(o[2], a[0])]),
    'set_attrs': lambda o, a: (a[0], a[1], a[2]),
    'write_styled': lambda o, a: (None, None, [0] * 4),
    'set_theme': lambda o, a: (a[0], a[1], a[2]),
}


class Attrs(Tx):
    names = ('held', 'out', 'tx', 'calls', 'lost')

    def __init__(self, ctx, P):
        Tx.__init__(self, ctx)
        self.P = P
        self.contracts = self.inlined = self.texts = 0
        self.asked = None

    def setup(self, E, st, R):
        self.anchor_out(E, R, st)
        T = E.T
        fs = T[self.wty]['variants'][0]['fields']
        self.at = {}
        for i, (n, t) in enumerate(fs):
            if T[t]['k'] == 'struct' and T[t].get('path') == 'terminal::Style':
                self.at['style'] = (i, t)
            elif T[t].get('path') == 'std::option::Option' and T[T[t]['args'][0]].get('path') == 'terminal::Color':
                k = [x for x in ('fg', 'bg') if n.endswith(x)]
                if len(k) != 1:
                    raise Anchor('remembered colour ' + n)
                self.at[k[0]] = (i, t)
        if sorted(self.at) != ['bg', 'fg', 'style']:
            raise Anchor('remembered attributes of the terminal')
        self.oty = self.at['fg'][1]
        self.sty = self.at['style'][1]
        self.cty = T[self.oty]['args'][0]
        self.none = E.variant(self.oty, 'None', ())
        E.bit_types = frozenset(i for i, t in enumerate(T) if t['s'] == 'u8')
        self.mask = {}
        for n in STYLES:
            w = fn(self.P, 'verif_witness::term::st_' + n.lower())
            (s, v), = E.run(w, [], St())
            b = self.bits(E, s, v)
            if b is None or any(x not in (0, 1) for x in b):
                raise Anchor('style ' + n)
            self.mask[n] = b
        self.all = [any(m[i] for m in self.mask.values()) for i in range(8)]
        self.set(st, 'calls', ())
        self.set(st, 'lost', False)

    # -------------------------------------------------- values
    def bits(self, E, st, v):
        """The bits of a style value."""
        ty = self.sty
        while True:
            if v[0] == 'sym':
                x = E.expand(v)
                if x == v:
                    return None
                v = x
            elif v[0] == 'st':
                if len(v[1]) != 1:
                    return None
                ty = E.T[ty]['variants'][0]['fields'][0][1]
                v = v[1][0]
            else:
                return list(E.to_bv(st, v, ty))

    def style(self, E, bits, ty=None):
        ty = self.sty if ty is None else ty
        if E.T[ty]['k'] == 'struct':
            return ('st', (self.style(E, bits, E.T[ty]['variants'][0]['fields'][0][1]),))
        return ('bv', tuple(bits), ty)

    def proper(self, E, st, v):
        """Assume that a style has no other bits."""
        bs = self.bits(E, st, v)
        for b, a in zip(bs, self.all):
            if not a:
                st = E.assume(st, B.lnot(b))
        return st

    def memory(self, E, st):
        """(fg, bg, style bits) remembered."""
        d = self.wdata
        w = E.getp(st, E.rcell(st, d[1]), d[2], None, d[1], ())
        w = E.expand(w) if w[0] == 'sym' else w
        f = [w[1][self.at[k][0]] for k in ('fg', 'bg', 'style')]
        f = [E.expand(x) if x[0] == 'sym' else x for x in f]
        return f[0], f[1], self.bits(E, st, f[2])

    def remember(self, E, st, fg, bg, bits):
        d = self.wdata
        for k, v in (('fg', fg), ('bg', bg), ('style', self.style(E, bits))):
            i, t = self.at[k]
            E.put(st, d[1], d[2] + (('f', i, t),), v, None)

    def device(self, st):
        return st.g('dfg'), st.g('dbg'), [x[1] for x in st.g('dst')[1]]

    def force(self, st, fg, bg, bits):
        st.setg('dfg', fg)
        st.setg('dbg', bg)
        st.setg('dst', ('st', tuple(('b', b) for b in bits)))

    def opt(self, v):
        return self.none if v is None else v

    def same(self, E, st, a, b):
        """Which of fg, bg, style differ (may differ)?"""
        out = []
        for k, x, y in zip(('foreground', 'background'), a, b):
            n = E.equal(st, x, y, self.oty)
            if not (n is not None and B.implies(st.bdd, n)):
                out.append(k)
        if a[2] is None or b[2] is None or any(not B.implies(st.bdd, B.lnot(B.xor(x, y))) for x, y in zip(a[2], b[2])):
            out.append('style')
        return out

    def args(self, E, st, name, vals, tys):
        """Values an operation is given -> list of options and bit lists."""
        if name == 'set_theme':
            v = E.expand(vals[0]) if vals[0][0] == 'sym' else vals[0]
            fs = E.T[tys[0]]['variants'][0]['fields']
            by = {f[0]: (v[1][i], f[1]) for i, f in enumerate(fs)}
            vals, tys = zip(*[by[k] for k in ('fg', 'bg', 'style')])
        out = []
        for v, t in zip(vals, tys):
            v = E.expand(v) if v[0] == 'sym' else v
            out.append(self.bits(E, st, v) if t == self.sty else v)
        return out

    # -------------------------------------------------- the ghost terminal
    def token(self, E, st, t, vals=()):
        Tx.token(self, E, st, t, vals)
        fg, bg, bits = self.device(st)
        if t[0] != 'cap' or not t[3]:
            if t[0] != 'cap' and self.asked is not None:
                d = self.same(E, st, self.device(st), self.asked)
                self.texts += 1
                self.ctx.oblige(not d or self.get(st, 'lost'), 'text', where(E), 'the text may appear with another %s than the one asked for' % d)
            if t[0] == 'cap':
                self.set(st, 'lost', True)
            return
        n = t[1]
        if n in ENTER:
            bits = [B.lor(b, m) for b, m in zip(bits, self.mask[ENTER[n]])]
        elif n in LEAVE:
            bits = [B.land(b, 1 - m) for b, m in zip(bits, self.mask[LEAVE[n]])]
        elif n == 'ExitAttributeMode':
            fg, bg, bits = self.none, self.none, [0] * 8
        elif n in ('SetAForeground', 'SetABackground'):
            c = E.mk(tm(fresh('colour')), self.cty)
            E.en_valid(st, c)
            if len(vals) == 1 and vals[0][0] in ('i', 'bv'):
                bs = E.to_bv(st, vals[0], vals[0][2])
                for k, x in NUMBERS.items():
                    node = 1
                    for j, z in enumerate(bs):
                        node = B.land(node, z if x >> j & 1 else B.lnot(z))
                    E.assume(st, B.lor(B.lnot(node), E.en_is(c, E.vix(self.cty, k))))
            c = E.variant(self.oty, 'Some', (c,))
            fg, bg = (c, bg) if n == 'SetAForeground' else (fg, c)
        else:
            fg, bg, bits = E.mk(fresh('colour'), self.oty), E.mk(fresh('colour'), self.oty), [B.var(('t', tm(fresh('style'), i))) for i in range(8)]
        self.force(st, fg, bg, bits)

    def call(self, E, st, c):
        b = E.P.bodies.get(c.callee.get('inst'))
        if b is not None:
            p = b.path.replace("::<'a>", '')
            n = p.rsplit('::', 1)[1]
            if p == WG + '::' + n and n in OPS and len(E.frames) >= 1:
                m = self.memory(E, st)
                if not self.same(E, st, m, self.device(st)) and not self.get(st, 'lost'):
                    self.contracts += 1
                    tr = self.get(st, 'calls')
                    if len(tr) >= LIMIT:
                        raise Anchor('attribute operations without bound in ' + where(E))
                    self.set(st, 'calls', tr + (n,))
                    bad = st.copy()
                    self.set(bad, 'lost', True)
                    u = lambda: E.mk(fresh('colour'), self.oty)
                    self.remember(E, bad, u(), u(), [B.var(('t', tm(fresh('style'), i))) for i in range(8)])
                    e = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
                    new = [self.opt(x) if i < 2 else x for i, x in enumerate(OPS[n](m, self.args(E, st, n, c.args[1:], c.argtys[1:])))]
                    self.remember(E, st, *new)
                    self.force(st, *new)
                    return [(bad, E.variant(c.destty, 'Err', (E.mk(fresh('err'), e),))), (st, E.variant(c.destty, 'Ok', (UNIT,)))]
                self.inlined += 1
        return Tx.call(self, E, st, c)



CAPS = sorted(ENTER) + sorted(LEAVE) + ['ExitAttributeMode', 'SetAForeground', 'SetABackground']


def one(ctx, P, b, name, fg=None, bg=None):
    """Interpret one operation; fg, bg: the colour asked for (None: symbolic)."""
    pl = Attrs(ctx, P)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, b)
    Tx.init(pl, st)
    pl.setup(E, st, R)
    tf = E.T[R.term_ty]['variants'][0]['fields']
    i = [k for k, f in enumerate(tf) if E.T[f[1]].get('path') == 'terminfo::Database']
    if len(i) != 1:
        raise Anchor('terminfo database of a terminal')
    info = (R.term[1], R.term[2] + (('f', i[0], tf[i[0]][1]),))
    for c in CAPS:
        h = has(E, info, c)
        if h is not None:
            st = E.assume(st, h)
    m = pl.memory(E, st)
    for x in m[:2]:
        E.en_valid(st, x)
    for x, a in zip(m[2], pl.all):
        if not a:
            st = E.assume(st, B.lnot(x))
    pl.remember(E, st, *m)
    pl.force(st, *m)
    tys = [b.locals[i + 1][0] for i in range(b.argc)]
    for k, (v, t) in enumerate(zip(args, tys)):
        v = E.expand(v) if v[0] == 'sym' else v
        if t == pl.sty:
            st = pl.proper(E, st, v)
        elif t == pl.oty:
            E.en_valid(st, v)
    ask = pl.args(E, st, name, args[1:], tys[1:])
    if name == 'write_styled':
        pl.asked = (ask[0], ask[1], ask[2])
    want = [pl.opt(x) if i < 2 else x for i, x in enumerate(OPS[name](m, ask))]
    nm = shared_name(b)
    n = 0
    for s, v in E.run(b, args, st):
        for k, s1 in ret_split(E, s, v):
            if k != 'Ok':
                continue
            n += 1
            here = lambda cond, rule, what: ctx.oblige(cond, rule, nm, what, loc=b.loc)
            here(not pl.get(s1, 'lost'), 'reports-failure', 'may report success after a sequence could not be sent')
            if pl.get(s1, 'lost'):
                continue
            d, mem = pl.device(s1), pl.memory(E, s1)
            tr = [t[1] for t in pl.get(s1, 'tx')]
            for w in pl.same(E, s1, d, want):
                here(False, 'in-force', 'may leave another %s in force than the one asked for (sent: %s; called: %s)' % (w, tr, list(pl.get(s1, 'calls'))))
            for w in pl.same(E, s1, mem, want):
                here(False, 'remembered', 'may remember another %s than the one asked for (sent: %s; called: %s)' % (w, tr, list(pl.get(s1, 'calls'))))
            here(True, 'in-force', '')
            here(True, 'remembered', '')
    ctx.oblige(n > 0, 'in-force', nm, 'never succeeds', loc=b.loc)
    if name == 'write_styled':
        ctx.floor('texts written with attributes', pl.texts, 1)
    ctx.engine(E)
    return pl


def shared_name(b):
    return b.path.replace("::<'a>", '').replace('sys::', '')


def callers(P):
    out = {}
    for b in P.bodies.values():
        for _, inst, _ in summ.callees(P, b):
            out.setdefault(inst, set()).add(b.id)
        for ty, _ in b.locals:
            t = P.T[ty] if isinstance(ty, int) else {}
            if t.get('k') == 'closure' and t.get('body') in P.bodies:
                out.setdefault(t['body'], set()).add(b.id)
    return out


def within(P, b, good, pred, seen=()):
    """Is the body one of these operations, or private to them?"""
    if b.id in good:
        return True
    up = pred.get(b.id, ()) if b.id not in seen else ()
    return bool(up) and all(within(P, P.bodies[x], good, pred, seen + (b.id,)) for x in up)


def confined(ctx, P, pl, good):
    """Only the operations change what is remembered or send attributes."""
    ixs = [i for i, _ in pl.at.values()]
    pred = callers(P)
    n = made = 0
    for b in sorted(P.bodies.values(), key=lambda b: b.path):
        what = []
        if makes(P, b, pl.wty):
            made += 1
            constructor(ctx, P, pl, b)
        elif touches(P, b, pl.wty, ixs):
            what.append('changes the attributes remembered')
        t = str([P.T[x[0]]['s'] for x in b.locals if isinstance(x[0], int)])
        for c in CAPS + OTHER:
            if 'capability::' + c + '>' in t or 'capability::' + c + '<' in t or 'capability::' + c + "'" in t:
                what.append('uses the capability ' + c)
        for w in what:
            n += 1
            ctx.oblige(within(P, b, good, pred), 'confined', shared_name(b), w + ' outside the attribute operations', loc=b.loc)
    ctx.floor('places that touch attributes', n, 4)
    ctx.floor('places that create the writer', made, 1)


def makes(P, b, wty):
    return any(s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][4] == wty for bl in b.blocks for s in bl['s'])


def constructor(ctx, P, pl, b):
    """A new terminal remembers no colour and no style."""
    E = Engine(P, [])
    E.bit_types = frozenset(i for i, t in enumerate(E.T) if t['s'] == 'u8')
    st = St()
    n = 0
    for s, v in E.run(b, [E.mk(fresh('arg'), b.locals[i + 1][0]) for i in range(b.argc)], st):
        for w in values(E, s, v, b.locals[0][0], pl.wty):
            n += 1
            f = [w[1][pl.at[k][0]] for k in ('fg', 'bg', 'style')]
            f = [E.expand(x) if x[0] == 'sym' else x for x in f]
            for d in pl.same(E, s, (f[0], f[1], pl.bits(E, s, f[2])), (pl.none, pl.none, [0] * 8)):
                ctx.oblige(False, 'starts-clear', shared_name(b), 'a new terminal remembers another %s than the default' % d, loc=b.loc)
    ctx.oblige(n > 0, 'starts-clear', shared_name(b), 'creates no writer', loc=b.loc)


def values(E, st, v, ty, want):
    """The values of a type inside a value."""
    v = E.expand(v) if v[0] == 'sym' else v
    t = E.T[ty]
    if ty == want:
        return [v]
    if t['k'] == 'struct' and v[0] == 'st':
        return [y for x, f in zip(v[1], t['variants'][0]['fields']) for y in values(E, st, x, f[1], want)]
    if t['k'] == 'enum' and t.get('path', '').endswith('Result'):
        return [y for k, s in ret_split(E, st, v) if k == 'Ok' for y in values(E, s, E.payload(v, E.vix(ty, 'Ok'), 0), t['variants'][E.vix(ty, 'Ok')]['fields'][0][1], want)]
    return []


# other capabilities of terminfo that change attributes
OTHER = ['SetAttributes', 'EnterBlinkMode', 'EnterDimMode', 'EnterSecureMode', 'EnterProtectedMode', 'EnterStandoutMode', 'ExitStandoutMode',
         'OrigPair', 'OrigColors', 'SetForeground', 'SetBackground', 'SetColorPair']


def run(ctx):
    P = ctx.P()
    good = set()
    pl = None
    for b in sorted(P.bodies.values(), key=lambda b: b.path):
        p = b.path.replace("::<'a>", '')
        n = p.rsplit('::', 1)[-1]
        if b.kind == 'fn' and p == WG + '::' + n and n in OPS:
            good.add(b.id)
            pl = one(ctx, P, b, n)
            ctx.cover('nested operations by contract', pl.contracts)
    ctx.floor('attribute operations', len(good), len(OPS))
    confined(ctx, P, pl, good)
