"""Preparing and restoring: device attributes, signal dispositions, and the mode
sequences, followed as ghost state through prepare and restore (C04, C05, C07)."""
from .tx import *

SIGS = ('SIGCONT', 'SIGWINCH', 'SIGINT', 'SIGTSTP', 'SIGQUIT')


def errs(E, st, c):
    ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
    return (st.copy(), E.variant(c.destty, 'Err', (E.mk(fresh('errno'), ety),)))


class Prep(Tx):
    names = ('held', 'out', 'tx', 'disp', 'devs')
    nametests = 0
    facts = ()

    def key(self, st):
        """Paths are kept apart by what the configuration and the terminal ask for."""
        return Tx.key(self, st) + tuple(1 if B.implies(st.bdd, f) else 2 if B.land(st.bdd, f) == 0 else 0 for f in self.facts)
    fds = None

    def token(self, E, st, t, vals=()):
        # whether a sequence went through the buffer does not matter here
        if t[0] == 'bytes':
            tr = self.get(st, 'tx')
            if t[-1] == 'direct' and tr and tr[-1] == t[:2]:
                return
            t = t[:2]
        Tx.token(self, E, st, t, vals)

    def init(self, st, held=()):
        Tx.init(self, st, held)
        self.set(st, 'disp', ())     # ((signal, term of the disposition), …) where changed
        self.set(st, 'devs', 0)      # attribute changes so far

    def setup_device(self, E, st):
        self.tio = E.find_ty(lambda t: t.get('path') == 'nix::sys::termios::Termios')
        self.raw = E.find_ty(lambda t: t.get('path') == 'libc::termios')
        if self.tio is None or self.raw is None:
            raise Anchor('termios types')
        v = []
        for i, (nm, ty) in enumerate(E.T[self.raw]['variants'][0]['fields']):
            x = E.mk(tm('tio', nm), ty)
            if nm in ('c_iflag', 'c_oflag', 'c_cflag', 'c_lflag'):
                x = ('bv', E.to_bv(st, x, ty), ty)
            elif nm == 'c_cc':
                t = E.T[ty]
                x = ('st', tuple(E.mk(tm('tio', nm, j), t['e']) for j in range(t['len'])))
            v.append(x)
        self.first = ('st', tuple(v))
        st.setg('dev', self.first)
        self.rawf = {f[0]: i for i, f in enumerate(E.T[self.raw]['variants'][0]['fields'])}
        self.tiof = {f[0]: i for i, f in enumerate(E.T[self.tio]['variants'][0]['fields'])}

    PAIRS = (('input_flags', 'c_iflag'), ('output_flags', 'c_oflag'), ('control_flags', 'c_cflag'), ('local_flags', 'c_lflag'))

    def to_nix(self, E, raw):
        out = []
        for nm, ty in E.T[self.tio]['variants'][0]['fields']:
            if nm == 'inner':
                out.append(raw)
            elif nm == 'control_chars':
                out.append(raw[1][self.rawf['c_cc']])
            elif nm == 'line_discipline':
                out.append(raw[1][self.rawf['c_line']])
            else:
                out.append(('st', (raw[1][self.rawf[dict(self.PAIRS)[nm]]],)))
        return ('st', tuple(out))

    def to_raw(self, E, st, v):
        """Attributes a nix record stands for when it is handed to the device."""
        inner = list(v[1][self.tiof['inner']][1])
        for nm, c in self.PAIRS:
            f = v[1][self.tiof[nm]]
            if f[0] == 'sym':
                f = E.expand(f)
            inner[self.rawf[c]] = f[1][0]
        inner[self.rawf['c_cc']] = v[1][self.tiof['control_chars']]
        inner[self.rawf['c_line']] = v[1][self.tiof['line_discipline']]
        return ('st', tuple(inner))

    def known(self, E, v, what):
        if v[0] != 'st':
            raise Anchor(what + ' in ' + where(E))
        return v

    def signal(self, E, st, v):
        n = is_ok(E, v)
        if n is None:
            raise Anchor('signal of a sigaction call in ' + where(E))
        return n

    def disposition(self, st, sig):
        return dict(self.get(st, 'disp')).get(sig) or tm('disp', sig)

    def call(self, E, st, c):
        p = c.path
        if p.startswith(('nix::', '<', 'libc::', 'std::str')):
            r = self.device(E, st, c, p)
            if r is not None:
                return r
        return Tx.call(self, E, st, c)

    def name_test(self, E, st, c, p):
        """Comparisons of the terminal's name with a constant are one condition each."""
        last = p.split('::')[-1]
        if last not in ('eq', 'ne', 'starts_with') or len(c.args) != 2:
            return None
        try:
            a = [as_slice(E, st, x, t) if x[0] != 'sl' else x for x, t in zip(c.args, c.argtys)]
        except Exception:
            return None
        if last != 'starts_with' and a[0][0] == 'sl' and a[0][1][0] != 'D':
            a = a[::-1]
        if any(x is None or x[0] != 'sl' for x in a) or a[0][1][0] != 'D' or a[0][1][1].parts[0] != 'dbname' or a[1][1][0] not in 'BC':
            return None
        b = self.text_of(E, st, a[1])
        if b[0] != 'bytes' or b[1] is None:
            return None
        self.nametests += 1
        n = self.name_atom(last, b[1])
        return [(st, ('b', B.lnot(n) if last == 'ne' else n))]

    def name_atom(self, how, text):
        return B.var(('t', tm('termname', 'pfx' if how == 'starts_with' else 'eq', text)))

    def device(self, E, st, c, p):
        r = self.name_test(E, st, c, p)
        if r is not None:
            return r
        if p.split('::')[-1] in ('tcgetattr', 'tcsetattr') and self.fds is not None:
            self.fds.add((E.to_lin(st, c.args[0], c.argtys[0]), where(E), str(c.loc)))
        if p == 'nix::sys::termios::tcgetattr':
            a = st.copy()
            return [(a, E.variant(c.destty, 'Ok', (self.to_nix(E, st.g('dev')),))), errs(E, st, c)]
        if p == 'libc::tcgetattr':
            a, b = st.copy(), st.copy()
            E.store_at(a, c.args[1][1], c.args[1][2], st.g('dev'), None, (where(E), c.loc))
            return [(a, ('i', L.const(0), c.destty)), (b, ('i', L.const(-1), c.destty))]
        if p == '<nix::sys::termios::Termios as std::clone::Clone>::clone':
            return [(st, E.deref(st, c.args[0], self.tio))]
        if p.startswith('<nix::sys::termios::Termios as std::convert::From<libc::termios>') or \
                p.endswith('::from') and c.destty == self.tio:
            return [(st, self.to_nix(E, self.known(E, c.args[0], 'attributes converted')))]
        if p.endswith('::from') and c.destty == self.raw and c.argtys[0] == self.tio:
            return [(st, self.known(E, c.args[0], 'attributes converted')[1][self.tiof['inner']])]
        if p in ('nix::sys::termios::tcsetattr', 'libc::tcsetattr'):
            v = E.deref(st, c.args[2])
            self.known(E, v, 'attributes set')
            raw = self.to_raw(E, st, v) if p.startswith('nix') else v
            a, b = st.copy(), st.copy()
            if p.startswith('nix'):
                for s in (a, b):
                    E.store_at(s, c.args[2][1], c.args[2][2], ('st', (raw,) + v[1][1:]), None, (where(E), c.loc))
            a.setg('dev', raw)
            self.set(a, 'devs', min(self.get(st, 'devs') + 1, 9))
            if p.startswith('nix'):
                return [(a, E.variant(c.destty, 'Ok', (UNIT,))), errs(E, b, c)]
            return [(a, ('i', L.const(0), c.destty)), (b, ('i', L.const(-1), c.destty))]
        if p.startswith('nix::sys::termios::') and not p.split('::')[3].endswith('Flags'):
            raise Anchor('call of %s in %s' % (p, where(E)))
        if p == 'nix::sys::signal::SigAction::new':
            h = c.args[0]
            k = is_ok(E, h)
            if k is None:
                raise Anchor('handler of a sigaction in ' + where(E))
            f = E.payload(h, E.vix(h[1], k), 0) if k in ('Handler', 'SigAction') else None
            return [(st, ('sym', tm('action', k, f), c.destty))]
        if p == 'nix::sys::signal::sigaction':
            sig = self.signal(E, st, c.args[0])
            new = E.deref(st, c.args[1])
            if new[0] != 'sym':
                raise Anchor('action of a sigaction call in ' + where(E))
            a = st.copy()
            d = dict(self.get(st, 'disp'))
            old = d.get(sig) or tm('disp', sig)
            if new[1] is tm('disp', sig):
                d.pop(sig, None)
            else:
                d[sig] = new[1]
            self.set(a, 'disp', tuple(sorted(d.items(), key=lambda x: x[0])))
            aty = E.T[c.destty]['variants'][E.vix(c.destty, 'Ok')]['fields'][0][1]
            return [(a, E.variant(c.destty, 'Ok', (('sym', old, aty),))), errs(E, st, c)]
        if p in ('nix::sys::signal::signal', 'libc::signal', 'libc::sigaction', 'nix::sys::signal::sigprocmask', 'nix::sys::signal::raise', 'nix::sys::signal::kill'):
            raise Anchor('call of %s in %s' % (p, where(E)))
        return None


class Run:
    """One symbolic prepare, and a restore after each way it can succeed."""

    def __init__(self, ctx, P, pl=None, signals=False):
        self.ctx, self.P = ctx, P
        pl = self.pl = pl or Prep(ctx)
        E = self.E = Engine(P, [pl])
        E.coarse = True
        E.bit_types = frozenset(i for i, t in enumerate(E.T) if t['s'] in ('u32', 'u8'))
        self.prep = fn(P, "sys::terminal::TerminalReadGuard::<'a>::prepare_with_lock")
        self.rest = fn(P, "sys::terminal::TerminalReadGuard::<'a>::restore_with_lock")
        st, args, R = EN.entry(E, self.prep)
        pl.anchor_out(E, R, st)
        pl.init(st)
        pl.setup_device(E, st)
        gt = EN.local_ty(E, 'sys::terminal::TerminalReadGuard')
        for nm, fty in E.T[gt]['variants'][0]['fields']:
            if E.T[fty].get('path', '').endswith('MutexGuard'):
                from ..models import mutex_data
                self.rty = E.T[fty]['args'][-1]
                self.rdata = mutex_data(E, EN.mutex_for(R, fty), self.rty)
        self.st0 = st
        self.R = R
        self.args = args
        self.config = args[2]
        self.reader0 = self.reader(st)
        # the six signals are independent of each other and of the rest
        f = []
        for nm in ('enable_mouse', 'always_track_motion', 'enable_keypad'):
            v, ty = self.conf(nm)
            if v[0] == 'b':
                f.append(v[1])
        f += [h for h in (self.caps('KeypadXmit'), self.caps('KeypadLocal')) if h is not None]
        f += [pl.name_atom('eq', b'xterm'), pl.name_atom('starts_with', b'xterm-')]
        if signals:
            v, ty = self.conf('report_signals')
            f += [self.contains(st, v, ty, n) for n in NAMES.values()]
        pl.facts = tuple(f)
        E.pinned = frozenset(v for x in f for v in B.support(x))
        st.setg('facts', ('st', tuple(('b', x) for x in f)))
        self.ok, self.err = [], []
        for s, v in E.run(self.prep, args, st.copy()):
            for k, s1 in ret_split(E, s, v):
                (self.ok if k == 'Ok' else self.err).append((s1, E.payload(v, E.vix(v[1], k), 0)))

    def reader(self, st):
        return self.E.getp(st, self.E.rcell(st, self.rdata[1]), self.rdata[2], None, self.rdata[1], ())

    def rfield(self, v, pred, what):
        i, ty = field_of_type(self.E, self.rty, pred, what)
        if v[0] == 'sym':
            v = self.E.expand(v)
        return v[1][i], ty

    def conf(self, name):
        """A field of the configuration."""
        v = self.config
        ty = self.prep.locals[3][0]
        if v[0] == 'sym':
            v = self.E.expand(v)
        i = self.E.fix(ty, name)
        return v[1][i], self.E.T[ty]['variants'][0]['fields'][i][1]

    def restore(self, s, state):
        E, pl = self.E, self.pl
        s = s.copy()
        tx = pl.get(s, 'tx')
        pl.set(s, 'tx', ())
        out = []
        for s1, v in E.run(self.rest, [self.args[0], self.args[1], state], s):
            for k, s2 in ret_split(E, s1, v):
                out.append((k, s2))
        return tx, out

    def caps(self, name):
        from .c27 import has
        E = self.E
        i, ty = field_of_type(E, self.R.term_ty, lambda t: t.get('path') == 'terminfo::Database', 'terminfo database')
        return has(E, (self.R.term[1], self.R.term[2] + (('f', i, ty),)), name)

    def contains(self, s, value, ty, signal):
        """Condition 'this signal set contains that signal', by the set's own test."""
        return contains(self.E, self.P, s, value, ty, signal)


def contains(E, P, s, value, ty, signal):
    b = fn(P, 'signal::SignalSet::contains')
    cell = ('X', fresh('set'))
    s = s.copy()
    s.mem[cell] = value
    E.celltys[cell] = ty
    sty = b.locals[2][0]
    n = 0
    for s1, v in E.run(b, [('ref', cell, ()), E.en_const(sty, E.vix(sty, signal), ())], s):
        n = B.lor(n, B.land(s1.bdd, v[1]))
    return n


def modes(tx):
    """Private modes switched by the texts of a trace -> {number: on}."""
    import re
    text = b''.join(t[1] or b'' for t in tx if t[0] == 'bytes')
    out = {}
    for nums, how in re.findall(rb'\x1b\[\?([0-9;]+)([hl])', text):
        for n in nums.split(b';'):
            out[int(n)] = how == b'h'
    return out


MOUSE = {9, 1000, 1001, 1002, 1003, 1005, 1006, 1015, 1016}
NAMES = {'SIGCONT': 'Continue', 'SIGWINCH': 'Resize', 'SIGINT': 'Interrupt', 'SIGTSTP': 'Suspend', 'SIGQUIT': 'Quit'}


def sent(tx, cap):
    return any(t[0] == 'cap' and t[1] == cap and t[3] for t in tx)
