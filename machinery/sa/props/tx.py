"""Traces of what is sent to the terminal: every expansion of a terminfo
capability that is appended to the output buffer, with its parameters, and
every text.  Used to decide which capabilities an operation sends (C27), in
which order (C13), and what the terminal has been told (C04, C05, C14)."""
from .locks import *

LIMIT = 40


class Tx(Locks):
    names = ('held', 'out', 'tx')
    split = False
    only_ok = True

    def __init__(self, ctx=None):
        Locks.__init__(self, ctx)
        self.where_ = {}

    def init(self, st, held=()):
        Locks.init(self, st, held)
        self.set(st, 'tx', ())

    def keep_token(self, E, st, t):
        return True

    def token(self, E, st, t, vals=()):
        if not self.keep_token(E, st, t):
            return
        tr = self.get(st, 'tx')
        if len(tr) >= LIMIT:
            raise Anchor('output of %s: repeated without bound' % where(E))
        self.set(st, 'tx', tr + (t,))
        old = st.g('txv')
        st.setg('txv', ('st', (old[1] if old is not None else ()) + (('st', tuple(vals)),)))
        self.where_[t[:2]] = (where(E), loc(E))

    def const_bytes(self, E, st, s):
        if s[1][0] == 'B':
            return bytes(s[1][1])
        if s[1][0] == 'C':
            v = E.getp(st, E.rcell(st, s[1]), s[2], None, s[1], ())
            if v[0] == 'st' and all(x[0] == 'i' and L.is_const(x[1]) for x in v[1]):
                return bytes(x[1][0] for x in v[1])
        return None

    def text_of(self, E, st, s, part=True):
        """Constant bytes of a slice, or its identity."""
        if s is None or s[0] != 'sl':
            return None
        b = self.const_bytes(E, st, s)
        if b is not None:
            if not part:
                return ('bytes', b)
            if L.is_const(s[3]) and L.is_const(s[4]):
                return ('bytes', b[s[3][0]:s[3][0] + s[4][0]])
            return ('bytes', None)
        return ('text', s[1], s[2])

    def seq(self, E, st, op, cell, path, kw):
        if op == 'append' and kw.get('exp') is not None:
            e = kw['exp']
            if e[0] != 'exp':
                raise Anchor('expansion in ' + where(E))
            self.token(E, st, ('cap', e[1], e[2], kw['ok'], len(e[3])), e[3])
        elif op == 'extend' and self.is_out(E, cell, path):
            s = kw.get('src')
            t = self.text_of(E, st, s)
            if t is None:
                raise Anchor('text written in ' + where(E))
            self.token(E, st, t)
        elif op in ('push',) and self.is_out(E, cell, path):
            raise Anchor('byte pushed to the output buffer in ' + where(E))
        return None

    def is_out(self, E, cell, path):
        o = getattr(self, 'out_at', None)
        return o is not None and cell == o[0] and tuple(p[:2] for p in path) == o[1]

    def anchor_out(self, E, R, st):
        data, wty = writer_cell(E, R)
        i, fty = field_of_type(E, wty, is_vec_u8(E), 'output buffer')
        self.out_at = (data[1], tuple(p[:2] for p in data[2]) + (('f', i),))
        self.wdata, self.wty = data, wty

    def call(self, E, st, c):
        if c.path == 'nix::unistd::write':
            s = as_slice(E, st, c.args[1], c.argtys[1])
            if s[1] != self.out_at[0]:
                # written past the buffer, in any number of pieces (C01)
                t = self.text_of(E, st, s, part=False)
                tr = self.get(st, 'tx')
                if not tr or tr[-1] != t + ('direct',):
                    self.token(E, st, t + ('direct',))
        if c.path == 'libc::ioctl' and len(c.args) == 3 and c.args[2][0] == 'ref':
            return self.winsize(E, st, c)
        return Locks.call(self, E, st, c)

    def winsize(self, E, st, c):
        """The window size record: rows first, then columns (the kernel's layout)."""
        a = c.args[2]
        cur = E.deref(st, a)
        if cur[0] != 'st' or len(cur[1]) < 2:
            return None
        new = []
        for i, x in enumerate(cur[1]):
            ty = E.fty(E.celltys.get(a[1]) if not a[2] else E.T[c.argtys[2]]['e'], 0, i) if x[0] != 'i' else x[2]
            new.append(('i', E.isym(fresh('winsize', i), ty), ty))
        E.store_at(st, a[1], a[2], ('st', tuple(new)), None, (where(E), c.loc))
        if st.g("win") is not None:
            st.setg("win", ("st", (new[0], new[1])))
        return [(st, ('i', E.isym(fresh('ioctl'), c.destty), c.destty))]


def caps_of(tr):
    return [(t[1], t[3]) for t in tr if t[0] == 'cap']
