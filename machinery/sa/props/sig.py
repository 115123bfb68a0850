"""Signals on their way from the handler to the reader: the atomic the handler
stores to, and the public reading operations with one signal pending or
arriving while they wait (C07, C08)."""
import json
from .prep import *
from .summ import Summ, havoc_args, READS, WAITS, WRITES

NUM = {'SIGINT': 2, 'SIGQUIT': 3, 'SIGCONT': 18, 'SIGTSTP': 20, 'SIGWINCH': 28}
SMALL = 150      # basic blocks below which a call is not summarised
OTHER = 10       # a signal nobody asked for


def sclass(path):
    if 'sync::atomic::Atomic' in path:
        return 'sig'
    if path in READS:
        return 'read'
    if path in WAITS:
        return 'wait'
    if path == 'libc::ioctl':
        return 'size'
    return None


def takes_config(P, b):
    return b.local and b.kind == 'fn' and b.path.startswith('sys::') and \
        any(P.T[b.locals[i][0]].get('path') == 'terminal::PrepareConfig' for i in range(1, b.argc + 1))


def sclasses(P):
    cfg = {b.path for b in P.bodies.values() if takes_config(P, b)}
    return lambda p: 'prep' if p in cfg else sclass(p)


def makes_event(P, b, names):
    """Does the body itself build an Event of one of these kinds?"""
    def agg(ty, k):
        t = P.T[ty]
        return t.get('path') == 'terminal::Event' and t['variants'][k]['name'] in names

    for bl in b.blocks:
        for s in bl['s']:
            if s[0] != '=':
                continue
            r = s[2]
            if r[0] == 'agg' and r[1] == 'adt' and agg(r[4], r[2]):
                return True
            if '"agg"' in json.dumps(r) and const_events(r, agg):
                return True
    return False


def const_events(x, agg):
    if isinstance(x, list):
        if x and x[0] == 'agg' and len(x) == 4 and isinstance(x[3], int) and isinstance(x[1], int):
            if agg(x[3], x[1]):
                return True
        return any(const_events(y, agg) for y in x)
    return False


def atom_op(p):
    if 'sync::atomic::Atomic' in p and p.split('::')[-1] in ATOM:
        return p.split('::')[-1]
    return None


ATOM = {
    'load': lambda v, a: v, 'store': lambda v, a: a, 'swap': lambda v, a: a, 'take': lambda v, a: 0,
    'fetch_or': lambda v, a: v | a, 'fetch_and': lambda v, a: v & a, 'fetch_xor': lambda v, a: v ^ a,
    'fetch_add': lambda v, a: v + a, 'fetch_max': max, 'fetch_min': min,
    'compare_exchange': None, 'compare_exchange_weak': None, 'compare_and_swap': None,
}


def atom(E, st, c, v):
    """An atomic operation on a known value -> (new value, result)."""
    op = atom_op(c.path)
    n = E.bits_of(pointee_int(E, c))
    a = []
    for x, t in zip(c.args[1:], c.argtys[1:]):
        if E.T[t]['k'] in ('int', 'bool'):
            l = E.to_lin(st, x, t)
            if l[1]:
                raise Anchor('operand of an atomic operation in ' + where(E))
            a.append(l[0] & ((1 << n) - 1))
    if ATOM[op] is None:
        hit = v == a[0]
        new = a[1] if hit else v
        if op == 'compare_and_swap':
            return new, ('i', L.const(v), c.destty)
        k = 'Ok' if hit else 'Err'
        ty = E.T[c.destty]['variants'][E.vix(c.destty, k)]['fields'][0][1]
        return new, E.variant(c.destty, k, (('i', L.const(v), ty),))
    new = ATOM[op](v, a[0] if a else 0) & ((1 << n) - 1)
    return new, UNIT if op == 'store' else ('i', L.const(v), c.destty)


def pointee_int(E, c):
    """Integer type of the atomic."""
    for t in list(c.argtys[1:]) + [c.destty]:
        if t is not None and E.T[t]['k'] in ('int', 'uint'):
            return t
    return E.find_ty(lambda t: t['s'] == 'usize')


class Handler(Plugin):
    """What a handler does to which atomic."""

    def __init__(self, value):
        self.value = value
        self.cells = set()
        self.ops = 0

    def key(self, st):
        return st.mem.get(('G', 'v'))

    def call(self, E, st, c):
        op = atom_op(c.path)
        if op and c.args[0][0] == 'ref':
            self.cells.add((c.args[0][1], tuple(p[:2] for p in c.args[0][2])))
            self.ops += op != 'load'
            new, r = atom(E, st, c, st.g('v'))
            st.setg('v', new)
            return [(st, r)]
        return None


def handled(P, body, n, value):
    """(cells, value of the atomic after the handler ran for signal n)"""
    pl = Handler(value)
    E = Engine(P, [pl])
    st = St()
    st.setg('v', value)
    out = {s.g('v') for s, v in E.run(body, [('i', L.const(n), body.locals[1][0])], st)}
    if len(out) != 1 or len(pl.cells) != 1 or not pl.ops:
        return None
    return pl.cells.pop(), out.pop()


def handler_store(ctx, P, body):
    """(cell of the atomic, {sig: value after the handler ran for it},
    {(first, second): value after it ran for both})"""
    one, two, cells = {}, {}, set()
    for nm, n in NUM.items():
        r = handled(P, body, n, 0)
        if r is None:
            return None
        cells.add(r[0])
        one[nm] = r[1]
    for a in NUM:
        for b, n in NUM.items():
            if a != b:
                two[a, b] = handled(P, body, n, one[a])[1]
    if len(cells) != 1:
        return None
    return cells.pop(), one, two


class Sig(Tx, Summ):
    """pend: number stored in the atomic; taken: number taken out;
    prep: configurations the terminal was prepared with since"""
    names = ('held', 'out', 'tx', 'pend', 'taken', 'prep', 'wins', 'seen')
    keep = frozenset(('sig', 'read', 'wait', 'size', 'prep'))
    split = False
    only_ok = True

    def __init__(self, ctx, P, cell, value, arrives):
        Tx.__init__(self, ctx)
        Summ.setup(self, P, sclasses(P), None, 'sig')
        self.cell_, self.value, self.arrives = cell, value, arrives
        self.rdata = None
        self.others = set()
        self.takes = self.prepares = 0

    def key(self, st):
        return tuple(st.mem.get(('G', n)) for n in ('held', 'pend', 'taken', 'prep', 'wins', 'seen'))

    def init(self, st, held=()):
        Tx.init(self, st, held)
        self.set(st, 'pend', 0 if self.arrives else self.value)
        self.set(st, 'taken', 0)
        self.set(st, 'prep', 0)
        self.set(st, 'wins', 0)
        self.set(st, 'seen', False)
        st.setg('conf', UNIT)
        st.setg('size', UNIT)

    def token(self, E, st, t, vals=()):
        pass

    def on_prepare(self, E, st, c):
        pass

    def anchor_reader(self, E, R, st):
        gt = EN.local_ty(E, 'sys::terminal::TerminalReadGuard')
        for nm, fty in E.T[gt]['variants'][0]['fields']:
            if E.T[fty].get('path', '').endswith('MutexGuard'):
                from ..models import mutex_data
                self.rty = E.T[fty]['args'][-1]
                self.rdata = mutex_data(E, EN.mutex_for(R, fty), self.rty)
        self.rsix = field_of_type(E, self.rty, lambda t: t.get('path') == 'signal::SignalSet', 'reported signals')
        self.reix = field_of_type(E, self.rty, lambda t: t.get('path') == 'std::option::Option' and 'PrepareConfig' in deep_types(E, t['args'][0]), 'configuration to resume with')

    def call(self, E, st, c):
        p = c.path
        op = atom_op(p)
        if op:
            a = c.args[0]
            if a[0] != 'ref' or (a[1], tuple(x[:2] for x in a[2])) != self.cell_:
                self.others.add(where(E))
                return None
            v = self.get(st, 'pend')
            new, r = atom(E, st, c, v)
            if op != 'load':
                self.takes += 1
            elif v:
                self.set(st, 'seen', True)
            if new != v:
                self.set(st, 'pend', new)
                self.set(st, 'taken', v & ~new or v)
                self.set(st, 'wins', 0)      # sizes asked for before do not count
            return [(st, r)]
        if p in WAITS or p in READS:
            # may be interrupted by the signal arriving now
            out = []
            ok = st.copy()
            v = E.mk(fresh('n'), okty(E, c.destty))
            if p in READS:
                s = as_slice(E, st, c.args[1], c.argtys[1])
                ok.add_ge(L.sub(s[4], v[1]))
            ok.add_ge(v[1])
            out.append((ok, E.variant(c.destty, 'Ok', (v,))))
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            err = E.mk(fresh('errno'), ety)
            intr = E.en_is(err, [x['name'] for x in E.T[ety]['variants']].index('EINTR'))
            f = st.copy()
            if E.assume(f, B.lnot(intr)) is not None:
                out.append((f, E.variant(c.destty, 'Err', (err,))))
            if self.arrives and not self.get(st, 'taken') and not self.get(st, 'pend') and not self.get(st, 'seen'):
                i = st.copy()
                self.set(i, 'pend', self.value)
                out.append((i, E.variant(c.destty, 'Err', (eintr(E, ety),))))
                j = ok.copy()      # just after the call
                self.set(j, 'pend', self.value)
                out.append((j, out[0][1]))
            return out
        if p == 'libc::ioctl' and len(c.args) == 3 and c.args[2][0] == 'ref':
            r = self.winsize(E, st, c)
            if r is not None:
                self.set(st, 'wins', min(self.get(st, 'wins') + 1, 3))
                v = E.deref(st, c.args[2])
                st.setg('size', ('st', (v[1][0], v[1][1])))
            return r
        for a, ty in zip(c.args, c.argtys):
            if ty is not None and E.T[ty].get('path') == 'terminal::PrepareConfig' and c.path.startswith('sys::terminal::'):
                self.prepares += 1
                self.set(st, 'prep', min(self.get(st, 'prep') + 1, 3))
                st.setg('conf', a)
                self.on_prepare(E, st, c)
                if self.rdata is None:
                    havoc_args(E, st, c)
                    return [(st, E.mk(fresh('prepared'), c.destty))]
                # the reported signals become those of the configuration
                if a[0] == 'sym':
                    a = E.expand(a)
                rs = [x for x, f in zip(a[1], E.T[ty]['variants'][0]['fields']) if E.T[f[1]].get('path') == 'signal::SignalSet']
                E.put(st, self.rdata[1], self.rdata[2] + (('f', self.rsix[0], self.rsix[1]),), rs[0], None)
                return [(st, E.mk(fresh('prepared'), c.destty))]
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        for a, ty in zip(c.args, c.argtys):
            if ty is not None and E.T[ty]['k'] in ('ref', 'ptr') and E.T[ty].get('mut') and EN.contains_guard(E, E.T[ty]['e']):
                return None      # would forget the reader's state
        inst = (c.callee or {}).get('inst')
        if inst not in E.P.bodies or self.effects.weight(inst) < SMALL:
            return None
        r = self.summarise(E, st, c)
        if r is not None and not any(makes_event(E.P, E.P.bodies[x], ('Signal', 'Resize')) for x in self.effects.reach(inst)):
            r = [(s, plain(E, v)) for s, v in r]
        return r


def plain(E, v, depth=0):
    """v with every Event in it made one that is neither a Signal nor a Resize."""
    if v[0] == 'sym':
        t = E.T[v[2]]
        if t['k'] != 'tuple' and t['k'] != 'enum' and not (t['k'] == 'struct' and t['local']):
            return v
        v = E.expand(v)
    if v[0] == 'en':
        t = E.T[v[1]]
        if t.get('path') == 'terminal::Event':
            k = E.vix(v[1], 'Key')
            return E.variant(v[1], 'Key', tuple(E.mk(fresh('ev'), f[1]) for f in t['variants'][k]['fields']))
        if depth > 4:
            return v
        pay = []
        for k in E.live_variants(v[1]):
            fs = tuple(E.payload(v, k, i) for i in range(len(t['variants'][k]['fields'])))
            new = tuple(plain(E, x, depth + 1) for x in fs)
            pay.append((k, new))
        return ('en', v[1], v[2], tuple(pay), v[4])
    if v[0] == 'st':
        return ('st', tuple(plain(E, x, depth + 1) for x in v[1]))
    return v


class Reading:
    """One reading operation with one signal; .out = [(kind, state, payload)]"""

    def __init__(self, ctx, P, body, cell, value, arrives):
        pl = self.pl = Sig(ctx, P, cell, value, arrives)
        E = self.E = Engine(P, [pl])
        self.P = P
        E.coarse = True
        E.bit_types = frozenset(i for i, t in enumerate(E.T) if t['s'] == 'u8')
        st, args, R = EN.entry(E, body)
        pl.anchor_out(E, R, st)
        pl.anchor_reader(E, R, st)
        pl.init(st)
        self.resume0 = self.reader(st, pl.reix)
        facts = [E.en_is(self.resume0, E.vix(self.resume0[1], 'Some'))]
        sets = [self.reader(st, pl.rsix)]
        self.config0, self.cty = configs(E, self.resume0)
        if self.config0 is not None:
            ty = self.cty
            sets += [v for v, f in zip(self.config0[1], E.T[ty]['variants'][0]['fields']) if E.T[f[1]].get('path') == 'signal::SignalSet']
        for v in sets:
            facts += [contains(E, P, st, v, pl.rsix[1], n) for n in SIGNALS]
        pl.facts = facts
        st.setg('facts', ('st', tuple(('b', x) for x in facts)))
        E.pinned = frozenset(v for x in facts for v in B.support(x))
        self.out = []
        for s, v in E.run(body, args, st):
            for k, s1 in ret_split(E, s, v):
                self.out.append((k, s1, E.payload(v, E.vix(v[1], k), 0)))

    def reader(self, st, f):
        E, pl = self.E, self.pl
        v = E.getp(st, E.rcell(st, pl.rdata[1]), pl.rdata[2], None, pl.rdata[1], ())
        if v[0] == 'sym':
            v = E.expand(v)
        v = v[1][f[0]]
        return E.expand(v) if v[0] == 'sym' else v

    def contains(self, s, signal):
        """Is this signal in the set the reader reports (now)?"""
        return contains(self.E, self.P, s, self.reader(s, self.pl.rsix), self.pl.rsix[1], signal)


SIGNALS = ('Interrupt', 'Suspend', 'Quit', 'Continue', 'Resize')


def configs(E, v):
    """The configuration inside the value the reader resumes with -> (fields, type)."""
    if v[0] == 'en':
        k = E.vix(v[1], 'Some')
        ty = E.T[v[1]]['variants'][k]['fields'][0][1]
        return config_in(E, E.payload(v, k, 0), ty)
    return None, None


def config_in(E, v, ty, depth=0):
    t = E.T[ty]
    if t['k'] != 'struct' or not t['local'] or depth > 2:
        return None, None
    if v[0] == 'sym':
        v = E.expand(v)
    if v[0] != 'st':
        return None, None
    if t.get('path') == 'terminal::PrepareConfig':
        return v, ty
    for x, f in zip(v[1], t['variants'][0]['fields']):
        c, cty = config_in(E, x, f[1], depth + 1)
        if c is not None:
            return c, cty
    return None, None


def readers(P, prefix):
    """Public operations returning a read event."""
    out = []
    for b in P.bodies.values():
        t = P.T[b.locals[0][0]]
        if b.local and b.kind == 'fn' and (b.path.startswith(prefix + '::') or b.path.startswith('<' + prefix + '::')) and \
                'Option<terminal::Event>' in t['s'] and t.get('path') == 'std::result::Result':
            out.append(b)
    return sorted(out, key=lambda b: b.path)


def eintr(E, ety):
    return E.en_const(ety, E.vix(ety, 'EINTR'), ())


def deep_types(E, ty, depth=0):
    t = E.T[ty]
    s = t.get('path', '').split('::')[-1]
    if depth < 3 and t['k'] == 'struct' and t['local']:
        s += ' ' + ' '.join(deep_types(E, f[1], depth + 1) for f in t['variants'][0]['fields'])
    return s


def events(E, st, v):
    """[(event variant or None, state, event value)] of an Option<Event>."""
    out = []
    for k, s in ret_split(E, st, v):
        if k == 'None':
            out.append((None, s, None))
            continue
        ev = E.payload(v, E.vix(v[1], 'Some'), 0)
        for n, s2 in ret_split(E, s, ev):
            out.append((n, s2, E.payload(ev, E.vix(ev[1], n), 0) if E.T[ev[1]]['variants'][E.vix(ev[1], n)]['fields'] else None))
    return out




def gone(pl, s, one, two, a, b):
    """Which of two pending signals the operation has taken (None: neither
    value left over is one the handler stores)."""
    p = pl.get(s, 'pend')
    m = {two[a, b]: (), one[a]: (b,), one[b]: (a,), 0: (a, b)}
    return m.get(p)
