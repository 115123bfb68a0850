"""C18: input bytes are neither lost nor duplicated.

Stream accounting.  The device delivers one stream of bytes.  A buffer that
holds a part of it carries, in the tag of its abstract value, the position in
the stream of its first byte.  Ghosts: R (bytes read so far) and `ufill` (bytes
of the caller's buffer filled, in order, with the oldest pending bytes).  Every
operation of the read guard is interpreted from any pending input; where it
returns, what it delivered and what is still pending must make up the stream.
Decoding is replaced by the statement that a decoded event is formed by the
first n pending bytes, which is shown separately from the code of the decoder:
n is the length of the prefix whose lookup gave the event, that plus what the
mouse parser reports (C17), or the length of the first character."""
from .summ import *
from .c13 import touches
from .c14 import callers, within, shared_name

ID = 'C18'
RG = 'sys::terminal::TerminalReadGuard'
READ = ('nix::unistd::read',)
RAWREAD = ('libc::read', 'libc::recv', 'libc::readv', 'std::io::Read::read', 'nix::sys::uio::readv', 'nix::sys::uio::pread', 'nix::sys::socket::recv')
FLUSH = ('nix::sys::termios::tcflush', 'libc::tcflush')


def is_decoder(P):
    """Functions from bytes to an optional event and its length."""
    def f(b):
        if b is None or not b.local or b.kind != 'fn' or '{closure' in b.path or not b.argc:
            return False
        T = P.T
        t = T[b.locals[0][0]]
        if t.get('path') != 'std::result::Result':
            return False
        t = T[t['args'][0]]
        if t.get('path') != 'std::option::Option' or T[t['args'][0]]['k'] != 'tuple':
            return False
        e = [T[x] for x in T[t['args'][0]]['e']]
        return len(e) == 2 and e[0].get('path') == 'terminal::Event' and e[1]['s'] == 'usize'
    return f


def slice_arg(P, b):
    i = [i for i in range(1, b.argc + 1) if P.T[b.locals[i][0]]['k'] == 'ref' and P.T[P.T[b.locals[i][0]]['e']]['s'] == '[u8]']
    if len(i) != 1:
        raise Anchor('bytes given to ' + b.path)
    return i[0] - 1


class Input(Locks, Summ):
    names = Locks.names + ('peek', 'got', 'bad')
    split = False
    only_ok = True
    keep = frozenset(('input',))

    def __init__(self, ctx, P, ids, entry):
        Locks.__init__(self, ctx)
        self.P, self.ids, self.entry = P, ids, entry
        self.dec = is_decoder(P)
        self.reads = self.peeks = 0
        self.user = None

    def ob(self, E, c, rule, what, l=None):
        self.ctx.oblige(c, rule, where(E), what, loc=l or loc(E), path=frames(E), entry=self.entry)

    # ------------------------------------------------ stream positions
    def start(self, E, st, R):
        Locks.init(self, st)
        self.set(st, 'peek', 0)
        self.set(st, 'got', 0)
        self.set(st, 'bad', 0)
        us = usize(E)
        gt = EN.local_ty(E, RG)
        f = [x for x in E.T[gt]['variants'][0]['fields'] if E.T[x[1]].get('path', '').endswith('MutexGuard')]
        if len(f) != 1:
            raise Anchor('mutex guard of the reader')
        from ..models import mutex_data
        self.rty = E.T[f[0][1]]['args'][-1]
        d = mutex_data(E, EN.mutex_for(R, f[0][1]), self.rty)
        i, t = field_of_type(E, self.rty, is_vec_u8(E), 'pending input')
        self.pend = (d[1], d[2] + (('f', i, t),))
        self.s0 = L.sym(tm('stream'), 0, MAXI)
        self.D = L.var(self.s0)
        n, cap = E.lensym(tm('pending')), E.lensym(tm('pendingcap'))
        st.add_ge(L.sub(cap, n))
        E.put(st, self.pend[0], self.pend[1], ('seq', n, cap, self.D), None)
        st.setg('D', ('i', self.D, us))
        st.setg('R', ('i', L.add(self.D, n), us))
        st.setg('ufill', ('i', L.const(0), us))
        st.setg('peekn', ('i', L.const(0), us))
        st.setg('peekv', UNIT)
        st.setg('bad', UNIT)
        st.setg('badlen', ('i', L.const(0), us))

    def R(self, st):
        return st.g('R')[1]

    def val(self, E, st, cell, path):
        v = E.getp(st, E.rcell(st, cell), path, None, cell, ())
        if v[0] == 'sym':
            v = E.mkseq(v[1])
        return v

    def pos(self, st, tag):
        """Is this tag a stream position?"""
        if tag is None:
            return False
        return any(s == self.s0 and k == 1 for s, k in tag[1])

    def at(self, E, st, s):
        """Stream position of the first byte of a slice, or None."""
        v = self.val(E, st, s[1], s[2])
        if v[0] == 'seq' and self.pos(st, v[3]):
            return L.add(v[3], s[3])
        return None

    def is_user(self, s):
        return self.user is not None and (s[1], s[2]) == (self.user[1], self.user[2])

    def place(self, E, st, dst, p, n, what):
        """n bytes of the stream, from position p on, are stored in dst."""
        if self.is_user(dst):
            off = L.sub(dst[3], self.user[3])
            u = st.g('ufill')
            self.ob(E, st.ent_eq(L.sub(off, u[1])) or st.ent_eq(n), 'raw-in-order', what + ' into the buffer of the caller elsewhere than behind the bytes already there')
            self.ob(E, st.ent_eq(L.sub(p, L.add(self.D, u[1]))) or st.ent_eq(n), 'raw-oldest-first', what + ' into the buffer of the caller although they are not the oldest pending')
            st.setg('ufill', ('i', L.add(u[1], n), u[2]))
            return
        v = self.val(E, st, dst[1], dst[2])
        if v[0] != 'seq':
            raise Anchor('buffer of unknown kind in ' + where(E))
        if self.pos(st, v[3]):
            self.ob(E, st.ent_eq(L.sub(L.add(v[3], dst[3]), p)), 'placed', what + ' elsewhere than behind the bytes already there')
        else:
            E.put(st, dst[1], dst[2], ('seq', v[1], v[2], L.sub(p, dst[3])), None)

    # ------------------------------------------------ hooks
    def seq(self, E, st, op, cell, path, kw):
        new, old = kw.get('new'), kw.get('old')
        if op == 'copy':
            p = self.at(E, st, kw['src'])
            if p is not None:
                self.place(E, st, kw['dst'], p, kw['src'][4], 'copies pending bytes')
            elif self.is_user(kw['dst']) or self.at(E, st, kw['dst']) is not None:
                raise Anchor('bytes of unknown origin copied in ' + where(E))
            return None
        if old is None or new is None or cell is None:
            return None
        if op == 'extend':
            s = kw.get('src')
            p = self.at(E, st, s) if s is not None else None
            if p is None:
                if self.pos(st, old[3]) or (cell, path) == self.pend:
                    self.ob(E, s is not None and st.ent_eq(s[4]), 'known-bytes', 'appends bytes that were not read from the device')
                return None
            if st.ent_eq(old[1]):
                return new[:3] + (p,)
            self.ob(E, self.pos(st, old[3]) and st.ent_eq(L.sub(L.add(old[3], old[1]), p)), 'placed', 'appends bytes that do not follow those already there')
            return None
        if self.pos(st, old[3]) and op == 'resize':
            self.ob(E, st.ent_ge(L.sub(L.add(old[3], old[1]), self.R(st))) or st.ent_ge(L.sub(old[1], new[1])), 'known-bytes', 'fills in pending bytes that were not read from the device')
            return new[:3] + (old[3],)
        if self.pos(st, old[3]) and op in ('push', 'insert', 'remove', 'splice', 'swap', 'reverse', 'sort', 'fill', 'retain', 'dedup'):
            self.ob(E, False, 'known-bytes', 'changes pending bytes (%s)' % op)
        return None

    def elem_read(self, E, st, cell, path, ix, ty):
        v = self.val(E, st, cell, path)
        if v[0] == 'seq' and self.pos(st, v[3]) and E.T[ty]['s'] == 'u8':
            return ('i', E.isym(tm('pendbyte', L.add(v[3], ix)), ty), ty)
        return None

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        s = ('sl', cell, path, ix, L.const(1))
        here = self.at(E, st, s) is not None
        if not here and not self.is_user(s):
            return
        p = None
        if val[0] == 'i' and len(val[1][1]) == 1 and val[1][0] == 0 and val[1][1][0][1] == 1:
            t = L.SYM[val[1][1][0][0]][0]
            if getattr(t, 'parts', (None,))[0] == 'pendbyte':
                p = t.parts[1]
        if p is None:
            raise Anchor('byte of unknown origin stored in ' + where(E))
        self.place(E, st, s, p, L.const(1), 'stores a pending byte')

    def call(self, E, st, c):
        if c.path in RAWREAD:
            raise Anchor('reads by ' + c.path)
        if c.path in READ:
            self.reads += 1
            s = as_slice(E, st, c.args[1], c.argtys[1])
            n = E.lensym(fresh('io'))
            a = st.copy()
            out = []
            if a.add_ge(L.sub(s[4], n)):
                r = a.g('R')
                self.place(E, a, s, r[1], n, 'reads')
                a.setg('R', ('i', L.add(r[1], n), r[2]))
                self.set(a, 'got', min(2, self.get(a, 'got') + 1))
                out.append((a, E.variant(c.destty, 'Ok', (('i', n, okty(E, c.destty)),))))
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            out.append((st, E.variant(c.destty, 'Err', (E.mk(fresh('errno'), ety),))))
            return out
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        if b is not None and self.dec(b):
            return self.decode(E, st, c, b)
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        if b is not None and b.local and b.kind == 'fn' and b.id not in self.ids and '{closure' not in b.path \
                and 'terminal::Event' not in E.T[c.destty]['s'] and not self.shares(E, st, c):
            out = self.summary(E, st, c, b)
            if out is not None:
                return out
        return None

    def shares(self, E, st, c):
        """Is the callee given pending bytes or the caller's buffer?"""
        for a, ty in zip(c.args, c.argtys):
            if ty is not None and a[0] in ('ref', 'sl') and E.T[ty]['k'] in ('ref', 'ptr'):
                if E.T[E.T[ty]['e']]['k'] == 'closure':
                    return True
                s = as_slice(E, st, a, ty) if E.T[E.T[ty]['e']]['s'] == '[u8]' or is_vec_u8(E)(E.T[E.T[ty]['e']]) else None
                if s is not None and (self.is_user(s) or self.at(E, st, s) is not None or (s[1], s[2]) == self.pend):
                    return True
            elif ty is not None and E.T[ty]['k'] == 'closure':
                return True
        return False

    def summary(self, E, st, c, b):
        """A function that reaches neither input nor the pending bytes."""
        for a, ty in zip(c.args, c.argtys):
            if ty is not None and E.T[ty]['k'] not in ('ref', 'ptr') and self.has_guard(E, ty):
                return None
        if self.has_guard(E, c.destty):
            return None
        keep = self.val(E, st, *self.pend)
        self.summarised[b.path] = self.summarised.get(b.path, 0) + 1
        havoc_args(E, st, c)
        E.put(st, self.pend[0], self.pend[1], keep, None)
        return [(st, E.mk(fresh('sum', b.path), c.destty))]

    def decode(self, E, st, c, b):
        """Contract of the decoder (see decoder())."""
        self.peeks += 1
        i = slice_arg(E.P, b)
        s = as_slice(E, st, c.args[i], c.argtys[i])
        v = self.val(E, st, *self.pend)
        whole = st.ent_eq(L.sub(s[4], v[1])) if v[0] == 'seq' else False
        self.ob(E, (s[1], s[2]) == self.pend and st.ent_eq(s[3]) and whole, 'decodes-pending', 'decodes other bytes than all that are pending', c.loc)
        T = E.T
        oty = okty(E, c.destty)
        tt = T[oty]['args'][0]
        ev = T[tt]['e'][0]
        out = []
        k = self.get(st, 'peek') + 1
        if k > 6:
            raise Anchor('decodes without bound in ' + where(E))
        # whether decoding fails depends on nothing but the bytes given
        if v[0] == 'seq' and self.pos(st, v[3]):
            fails = B.var(('t', tm('undecodable', s[1], s[2], s[3], s[4], v[3])))
            bad = E.assume(st.copy(), fails)
            st = E.assume(st, B.lnot(fails))
        else:
            bad = st.copy()
        a = st.copy() if st is not None else None
        n = E.lensym(fresh('evlen'))
        if a is not None and a.add_ge(L.add(n, L.const(-1))) and a.add_ge(L.sub(s[4], n)):
            self.set(a, 'peek', k)
            a.setg('peekn', ('i', n, usize(E)))
            for kind in ('Key', 'Mouse'):
                p = T[ev]['variants'][E.vix(ev, kind)]['fields'][0][1]
                x = a.copy()
                val = E.variant(ev, kind, (E.mk(tm('decoded', k), p),))
                x.setg('peekv', val[3][0][1][0])
                out.append((x, E.variant(c.destty, 'Ok', (E.variant(oty, 'Some', (('st', (val, ('i', n, usize(E)))),)),))))
        if st is not None:
            out.append((st, E.variant(c.destty, 'Ok', (E.variant(oty, 'None', ()),))))
        ety = T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
        st = not_text(E, bad, s) if bad is not None else None
        if st is not None:
            self.set(st, 'bad', 1)
            out.append((st, E.variant(c.destty, 'Err', (E.mk(fresh('err'), ety),))))
        return out


def text_error(E, st, s):
    from ..models import version
    t = tm('utf8err', s[1], s[2], s[3], s[4], version(E, st, s[1], s[2]))
    return t, L.var(L.sym(tm('valid_up_to', t), 0, MAXI)), E.mk(tm('error_len', t), E.find_ty(lambda t: t.get('path') == 'std::option::Option' and E.T[t['args'][0]]['s'] == 'usize'))


def not_text(E, st, s):
    """The first bytes are not valid text: what the decoder's error says."""
    from ..models import version
    t, vu, el = text_error(E, st, s)
    st = E.assume(st, B.lnot(B.var(('t', tm('utf8ok', s[1], s[2], s[3], s[4], version(E, st, s[1], s[2]))))))
    st = st and E.assume(st, E.en_is(el, E.vix(el[1], 'Some')))
    if st is None:
        return None
    n = E.to_lin(st, E.payload(el, E.vix(el[1], 'Some'), 0), usize(E))
    if not (st.add_eq(vu) and st.add_ge(L.add(n, L.const(-1))) and st.add_ge(L.sub(s[4], n))):
        return None
    st.setg('bad', el)
    st.setg('badlen', ('i', n, usize(E)))
    return st


def operation(ctx, P, b, ids):
    """One operation of the read guard."""
    nm = shared_name(b)
    pl = Input(ctx, P, ids, nm)
    pl.summarised = {}
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, b)
    pl.start(E, st, R)
    tys = [b.locals[i + 1][0] for i in range(b.argc)]
    for a, t in zip(args, tys):
        if E.T[t]['k'] == 'ref' and E.T[t].get('mut') and E.T[E.T[t]['e']]['s'] == '[u8]':
            pl.user = as_slice(E, st, a, t)
            pl.user0 = pl.user[4]
    n = 0
    for s, v in E.run(b, args, st):
        n += 1
        for s1, d, what in delivered(E, pl, s, v, b.locals[0][0], ctx, nm, b):
            q = pl.val(E, s1, *pl.pend)
            if q[0] != 'seq':
                raise Anchor('pending input after ' + nm)
            here = lambda cond, rule, w: ctx.oblige(cond, rule, nm, w + ' when it returns %s' % what, loc=b.loc)
            front = L.add(pl.D, d)
            if pl.get(s1, 'bad') and what.endswith('Err'):
                # invalid bytes go with the error that reports them
                bad = s1.g('badlen')[1]
                if not s1.ent_eq(L.sub(L.add(front, q[1]), pl.R(s1))) or 'Event' in E.T[b.locals[0][0]]['s']:
                    front = L.add(front, bad)
                    here(s1.ent_eq(L.sub(L.add(front, q[1]), pl.R(s1))), 'invalid-dropped', 'reports that the first pending bytes are not valid text without removing exactly these: they are found again by every later read')
            empty = s1.ent_eq(q[1])
            here(s1.ent_eq(L.sub(L.add(front, q[1]), pl.R(s1))), 'accounted', 'bytes read may be lost, delivered twice or made up')
            if not empty:
                here(q[3] is not None and s1.ent_eq(L.sub(q[3], front)), 'pending', 'what stays pending may not be what follows the bytes delivered')
    ctx.oblige(n > 0, 'accounted', nm, 'never returns', loc=b.loc)
    ctx.engine(E)
    return pl


def delivered(E, pl, st, v, ty, ctx, nm, b):
    """[(state, bytes delivered, description)] of a result."""
    T = E.T
    zero = L.const(0)
    ety = EN.local_ty(E, 'terminal::Event')

    def go(s, v, ty, what):
        v = E.expand(v) if v[0] == 'sym' else v
        t = T[ty]
        if t.get('path') in ('std::result::Result', 'std::option::Option') and v[0] == 'en':
            for k, s1 in ret_split(E, s, v):
                f = T[ty]['variants'][E.vix(ty, k)]['fields']
                if not f or k == 'Err':
                    yield s1, zero, what + k
                else:
                    yield from go(s1, E.payload(v, E.vix(ty, k), 0), f[0][1], what + k + ' ')
        elif ty == ety and v[0] == 'en':
            for k, s1 in ret_split(E, s, v):
                if k == 'Raw':
                    n = E.to_lin(s1, E.payload(v, E.vix(ty, k), 0), usizety(E))
                    if pl.user is None:
                        ctx.oblige(False, 'raw-delivered', nm, 'returns raw data without a buffer to hold it', loc=b.loc)
                    else:
                        ctx.oblige(s1.ent_ge(L.sub(s1.g('ufill')[1], n)), 'raw-delivered', nm, 'reports more bytes than it stored in the buffer of the caller', loc=b.loc)
                    yield s1, n, what + k
                elif k in ('Key', 'Mouse'):
                    p = E.payload(v, E.vix(ty, k), 0)
                    w = s1.g('peekv') if pl.get(s1, 'peek') else None
                    same = w is not None and (w == p or E.expand(w) == E.expand(p) if p[0] == 'sym' or w[0] == 'sym' else w == p)
                    ctx.oblige(same, 'event-decoded', nm, 'returns an event that is not the one last decoded', loc=b.loc)
                    yield s1, s1.g('peekn')[1] if same else zero, what + k
                else:
                    yield s1, zero, what + k
        else:
            yield s, zero, what.strip() or 'a value'
    return go(st, v, ty, '')


def usizety(E):
    return usize(E)


# ------------------------------------------------------------- the decoder
class Decode(Typestate):
    """des: none (no lookup succeeded), yes (the last success is the designated
    one), over (it is another)."""
    names = ('des', 'mouse')

    def __init__(self, ctx, nm):
        self.ctx, self.nm = ctx, nm
        self.finds = self.parses = 0

    def ob(self, E, c, rule, what, l=None):
        self.ctx.oblige(c, rule, where(E), what, loc=l or loc(E), path=frames(E), entry=self.nm)

    def char_of(self, E, st, s):
        if s[1] == self.buf[1] and s[2] == self.buf[2]:
            return ('i', E.isym(tm('charat', L.sub(s[3], self.buf[3])), self.ch), self.ch)
        return None

    def call(self, E, st, c):
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        if b is None or not b.local:
            return None
        T = E.T
        if b.path == '<terminal::Key as std::convert::From<char>>::from':
            return [(st, E.mk(tm('keyof', E.to_lin(st, c.args[0], c.argtys[0])), c.destty))]
        t = T[c.destty]
        if t.get('path') == 'sequence::FindResult' and any(T[x]['k'] == 'ref' and T[T[x]['e']]['s'] == 'str' for x in c.argtys if x is not None):
            return self.find(E, st, c)
        if t.get('path') == 'std::option::Option' and T[t['args'][0]]['k'] == 'tuple':
            e = [T[x] for x in T[t['args'][0]]['e']]
            if len(e) == 2 and e[0].get('path') == 'terminal::MouseEvent' and e[1]['s'] == 'usize':
                return self.mouse(E, st, c, b)
        return None

    def find(self, E, st, c):
        self.finds += 1
        T = E.T
        i = [i for i, x in enumerate(c.argtys) if T[x]['k'] == 'ref' and T[T[x]['e']]['s'] == 'str'][0]
        s = as_slice(E, st, c.args[i], c.argtys[i])
        self.ob(E, (s[1], s[2]) == (self.buf[1], self.buf[2]) and st.ent_eq(L.sub(s[3], self.buf[3])), 'looks-up-prefix',
                'looks up something else than a prefix of the pending bytes', c.loc)
        out = []
        for k in ('NotFound', 'Incomplete'):
            out.append((st.copy(), E.variant(c.destty, k, ())))
        for k in ('Found', 'Undecided'):
            f = T[c.destty]['variants'][E.vix(c.destty, k)]['fields'][0][1]
            ref = T[f]['k'] == 'ref'
            vt = T[f]['e'] if ref else f

            def value(s, term):
                v = E.mk(term, vt)
                if not ref:
                    return v
                cell = ('D', tm('cellof', term))
                E.celltys.setdefault(cell, vt)
                s.mem[cell] = v
                return ('ref', cell, ())
            a = st.copy()
            self.set(a, 'des', 'over')
            out.append((a, E.variant(c.destty, k, (value(a, tm('othermatch')),))))
            if self.get(st, 'des') in ('none', 'over'):
                a = st.copy()
                self.set(a, 'des', 'yes')
                if vt != self.vty:
                    raise Anchor('values of the sequence map')
                self.ob(E, st.ent_ge(L.add(s[4], L.const(-1))), 'length-positive', 'may look up an empty text', c.loc)
                if a.add_eq(L.sub(s[4], self.k)):
                    out.append((a, E.variant(c.destty, k, (value(a, tm('match')),))))
        return out

    def mouse(self, E, st, c, b):
        self.parses += 1
        i = slice_arg(E.P, b)
        s = as_slice(E, st, c.args[i], c.argtys[i])
        if self.get(st, 'des') == 'yes':
            self.ob(E, (s[1], s[2]) == (self.buf[1], self.buf[2]) and st.ent_eq(L.sub(L.sub(s[3], self.buf[3]), self.k)), 'report-behind-intro',
                    'decodes a mouse report elsewhere than behind its introduction', c.loc)
        out = []
        a = st.copy()
        n = L.var(L.sym(tm('reportlen'), 0, MAXI))
        tt = E.T[c.destty]['args'][0]
        if a.add_ge(L.add(n, L.const(-1))) and a.add_ge(L.sub(s[4], n)):
            self.set(a, 'mouse', 'yes')
            out.append((a, E.variant(c.destty, 'Some', (('st', (E.mk(tm('mousedata'), E.T[tt]['e'][0]), ('i', n, usize(E)))),))))
        self.set(st, 'mouse', 'no')
        out.append((st, E.variant(c.destty, 'None', ())))
        return out


def setup_decoder(E, P, pl, b, st, args):
    T = E.T
    i = slice_arg(P, b)
    pl.buf = as_slice(E, st, args[i], b.locals[i + 1][0])
    pl.ch = E.find_ty(lambda t: t['k'] == 'char')
    pl.k = L.var(L.sym(tm('matchlen'), 0, MAXI))
    fr = [t for t in T if t.get('path') == 'sequence::FindResult' and T[t['args'][0]]['k'] == 'ref']
    vts = {T[t['args'][0]]['e'] for t in fr if T[T[t['args'][0]]['e']].get('local')}
    if len(vts) != 1:
        raise Anchor('values of the sequence map')
    pl.vty = vts.pop()
    st.setg('k', ('i', pl.k, usize(E)))
    st.setg('match', E.mk(tm('match'), pl.vty))
    st.setg('reportlen', ('i', L.var(L.sym(tm('reportlen'), 0, MAXI)), usize(E)))
    st.setg('ch', ('i', E.isym(tm('charat', L.const(0)), pl.ch), pl.ch))
    pl.set(st, 'des', 'none')
    pl.set(st, 'mouse', '')
    bt, vu, el = text_error(E, st, pl.buf)
    st.setg('vu', ('i', vu, usize(E)))
    st.setg('el', el)
    return vu, el


def decoder(ctx, P, b):
    nm = shared_name(b)
    pl = Decode(ctx, nm)
    E = Engine(P, [pl])
    T = E.T
    st, args, R = EN.entry(E, b)
    vu, el = setup_decoder(E, P, pl, b, st, args)
    ety = EN.local_ty(E, 'terminal::Event')
    n = {'char': 0, 'key': 0, 'mouse': 0, 'nothing': 0, 'error': 0}
    for s0, v in E.run(b, args, st):
        for k, s in ret_split(E, s0, v):
            if k != 'Ok':
                n['error'] += 1
                ctx.oblige(s.ent_eq(vu) and B.implies(s.bdd, E.en_is(el, E.vix(el[1], 'Some'))), 'error-not-text', nm, 'may fail although the first pending bytes are valid text, or may become it', loc=b.loc)
                continue
            o = E.payload(v, E.vix(v[1], 'Ok'), 0)
            for k2, s2 in ret_split(E, s, o):
                if k2 == 'None':
                    n['nothing'] += 1
                    continue
                p = E.payload(o, E.vix(o[1], 'Some'), 0)
                p = E.expand(p) if p[0] == 'sym' else p
                ev, ln = p[1]
                ln = E.to_lin(s2, ln, usize(E))
                if pl.get(s2, 'des') == 'over':
                    continue
                for kind, s3 in ret_split(E, s2, E.expand(ev) if ev[0] == 'sym' else ev):
                    one(ctx, E, pl, s3, ev, kind, ln, n, b, nm)
    for k in ('char', 'key', 'mouse'):
        ctx.floor('decoded by ' + k, n[k], 1)
    ctx.floor('lookups', pl.finds, 1)
    ctx.engine(E)


def one(ctx, E, pl, s, ev, kind, n, count, b, nm):
    here = lambda cond, rule, w: ctx.oblige(cond, rule, nm, w, loc=b.loc)
    data = E.payload(ev, E.vix(ev[1], kind), 0)
    here(kind in ('Key', 'Mouse'), 'decodes-input', 'decodes input as %s' % kind)
    ch = s.g('ch')[1]
    from ..models import utf8len
    if pl.get(s, 'des') == 'yes':
        s.add_ge(L.add(pl.k, L.const(-1)))        # checked where it was looked up
    here(s.ent_ge(L.sub(pl.buf[4], n)), 'length-within', 'reports more bytes than there are')
    here(s.ent_ge(L.add(n, L.const(-1))), 'length-positive', 'may decode an event from no bytes')
    if kind == 'Mouse':
        count['mouse'] += 1
        here(pl.get(s, 'des') == 'yes' and pl.get(s, 'mouse') == 'yes', 'mouse-decoded', 'returns a mouse event that was not decoded')
        here(data == E.mk(tm('mousedata'), E.T[ev[1]]['variants'][E.vix(ev[1], kind)]['fields'][0][1]), 'mouse-decoded', 'does not return the mouse event that was decoded')
        here(s.ent_eq(L.sub(n, L.add(pl.k, L.var(L.sym(tm('reportlen')))))), 'mouse-length', 'does not report the bytes of introduction and mouse report')
        return
    if kind != 'Key':
        return
    kty = E.T[ev[1]]['variants'][E.vix(ev[1], kind)]['fields'][0][1]
    plain = E.mk(tm('keyof', ch), kty)
    if pl.get(s, 'des') == 'none' or pl.get(s, 'mouse') == 'no':
        count['char'] += 1
        here(same(E, s, data, plain, kty), 'char-decoded', 'does not decode the first character when nothing matches')
        here(s.ent_eq(L.sub(n, utf8len(E, s, ch))), 'char-length', 'does not report the bytes of the character it decodes')
        return
    count['key'] += 1
    m = s.g('match')
    vt = pl.vty
    for var in E.T[vt]['variants']:
        if len(var['fields']) == 1 and var['fields'][0][1] == kty:
            want = E.payload(m, E.vix(vt, var['name']), 0)
            here(same(E, s, data, want, kty), 'key-decoded', 'returns another key than that of the last sequence found')
            break
    else:
        raise Anchor('keys in the sequence map')
    here(s.ent_eq(L.sub(n, pl.k)), 'key-length', 'does not report the length of the sequence that matched')


def same(E, st, a, b, ty):
    x = E.equal(st, a, b, ty)
    return x is not None and B.implies(st.bdd, x)


def discards(ctx, P, bodies):
    """Nothing throws away input the system holds."""
    n = 0
    for b in bodies:
        for path, inst, l in callees(P, b):
            if path in FLUSH:
                ctx.violate('not-discarded', shared_name(b), 'discards pending input (%s)' % path, loc=l)
            if path.endswith('termios::tcsetattr'):
                n += 1
        from .sig import const_events
        hit = lambda ty, var: P.T[ty].get('path', '').endswith('termios::SetArg') and P.T[ty]['variants'][var]['name'] == 'TCSAFLUSH'
        for bl in b.blocks:
            if const_events(bl['s'], hit) or const_events(bl['t'], hit) or any(s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and hit(s[2][4], s[2][2]) for s in bl['s']):
                ctx.violate('not-discarded', shared_name(b), 'sets device attributes in the mode that discards pending input (TCSAFLUSH)', loc=b.loc)
    ctx.floor('device attribute calls', n, 2)


def run(ctx):
    P = ctx.P()
    local = sorted((b for b in P.bodies.values() if b.local), key=lambda b: b.path)
    dec = is_decoder(P)
    decs = [b for b in local if dec(b)]
    if not decs:
        raise Anchor('decoder of pending input')
    for b in decs:
        decoder(ctx, P, b)
    E = Engine(P, [])
    gt = EN.local_ty(E, RG)
    f = [x for x in E.T[gt]['variants'][0]['fields'] if E.T[x[1]].get('path', '').endswith('MutexGuard')]
    rty = E.T[f[0][1]]['args'][-1]
    i, _ = field_of_type(E, rty, is_vec_u8(E), 'pending input')
    # who reaches input or the pending bytes
    hot = {b.id for b in local if b not in decs and (uses(P, b, rty, i) or any(p in READ for p, _, _ in callees(P, b)))}
    pred = callers(P)
    ids, work = set(hot), list(hot)
    while work:
        for y in pred.get(work.pop(), ()):
            if y not in ids:
                ids.add(y)
                work.append(y)
    ops = {b.id: b for b in local if b.id in ids and b.kind == 'fn' and b.path.replace("::<'a>", '').startswith(RG + '::') and b.vis == 'pub' and '{closure' not in b.path}
    ctx.floor('operations on input', len(ops), 2)
    reads = 0
    for b in ops.values():
        pl = operation(ctx, P, b, ids)
        reads += pl.reads
        ctx.cover('decodings', pl.peeks)
        ctx.cover('reads', pl.reads)
    ctx.floor('device reads', reads, 1)
    for x in sorted(hot, key=lambda x: P.bodies[x].path):
        b = P.bodies[x]
        if makes(P, b, rty):
            continue
        ctx.oblige(within(P, b, set(ops), pred), 'confined', shared_name(b), 'handles pending input outside the operations examined', loc=b.loc)
    discards(ctx, P, local)


def makes(P, b, ty):
    return any(s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][4] == ty for bl in b.blocks for s in bl['s'])


def uses(P, b, ty, ix):
    """Does a body mention the field?"""
    def hit(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], (list, tuple)) and x[0] < len(b.locals):
                t = b.locals[x[0]][0]
                for p in x[1]:
                    if p == '*':
                        t = P.T[t].get('e', t)
                    elif isinstance(p, (list, tuple)) and p and p[0] == 'f':
                        if t == ty and p[1] == ix:
                            return True
                        t = p[2]
                    else:
                        break
            return any(hit(y) for y in x)
        return False
    return any(hit(bl['s']) or hit(bl['t']) for bl in b.blocks)
