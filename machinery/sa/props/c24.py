"""C24: unsafe code never exposes invalid data.

Three rules over every unsafe operation of the crate.

* A vector whose length is set beyond what it held carries a mark and the
  number of its leading bytes that are known to be filled; a device read, a
  copy or a fill at that position advances the number.  Wherever the function
  returns (or, if it is a private helper, wherever the functions calling it
  return), no marked vector may be alive with a length beyond that number, and
  none of its unfilled bytes may have been read or handed to anyone who reads.
* Text may be made from bytes without checking only on a path on which these
  bytes are known to be ASCII, or valid UTF-8.
* A record given to the window-size query has the layout of the C type, starts
  out filled, and its first two numbers become lines and columns."""
from .locks import *
from .c14 import callers
from .summ import havoc_args
from .summ import Summ
from ..models import as_slice

ID = 'C24'
MARK = L.var(L.sym(tm('unfilled')))
READ = ('nix::unistd::read', 'libc::read', 'nix::sys::uio::pread')
UNCHECKED = ('std::str::from_utf8_unchecked', 'std::string::String::from_utf8_unchecked', 'std::str::from_utf8_unchecked_mut')
SETLEN = ('std::vec::Vec::<T, A>::set_len',)
READERS = ('clone', 'to_vec', 'to_owned', 'eq', 'ne', 'cmp', 'partial_cmp', 'hash', 'fmt', 'write', 'write_all', 'extend_from_slice', 'append')
PARTS = ('index', 'get', 'len', 'is_empty', 'deref', 'as_ptr', 'split_at', 'iter', 'into_iter', 'borrow', 'as_ref', 'first', 'last', 'min', 'max')
WINSZ = 0x5413
ZERO = ('std::mem::zeroed',)


class Fill(Locks, Summ):
    names = Locks.names + ('raw',)
    split = False
    only_ok = True

    def __init__(self, ctx, P, hot):
        Locks.__init__(self, ctx)
        self.P, self.hot = P, hot
        self.bad = []
        self.sets = 0
        self.summarised = {}

    def init(self, st):
        Locks.init(self, st)
        self.set(st, 'raw', 0)
        st.setg('filled', ('i', L.const(0), None))

    def say(self, E, what):
        self.bad.append((where(E), loc(E), what, frames(E)))

    def marked(self, E, st, cell, path):
        v = E.getp(st, E.rcell(st, cell), tuple(path), None, cell, ())
        return v if v[0] == 'seq' and v[3] == MARK else None

    def filled(self, E, st, l):
        st.setg('filled', ('i', l, usize(E)))

    def more(self, E, st, cell, path, lo, n):
        """n bytes from lo on of the vector are filled."""
        if self.marked(E, st, cell, path) is None:
            return
        f = st.g('filled')[1]
        end = L.add(lo, n)
        if st.ent_ge(L.sub(f, lo)) and st.ent_ge(L.sub(end, f)):
            self.filled(E, st, end)

    def seq(self, E, st, op, cell, path, kw):
        new, old = kw.get('new'), kw.get('old')
        if op == 'set_len':
            self.sets += 1
            n = kw['n']
            if new[2] is None or not st.ent_ge(L.sub(new[2], n)):
                self.say(E, 'counts more bytes than the buffer has room for')
            if old is not None and old[3] == MARK:
                f = st.g('filled')[1]
                if st.ent_ge(L.sub(f, n)):
                    self.set(st, 'raw', 0)
                    return new[:3] + (L.var(L.sym(fresh('bytes'))),)
                return new
            if old is not None and st.ent_ge(L.sub(old[1], n)):
                return None
            if self.get(st, 'raw'):
                if any(x[0][0] != 'L' for x in places(st)):
                    self.say(E, 'reads again while a buffer counts bytes that nothing has filled')
                    return new[:3] + (MARK,)
                raise Anchor('two vectors with unfilled bytes at once in ' + where(E))
            self.set(st, 'raw', 1)
            self.filled(E, st, old[1])
            return new[:3] + (MARK,)
        if op in ('copy', 'fill') and kw.get('dst') is not None:
            d = kw['dst']
            self.more(E, st, d[1], d[2], d[3], d[4])
            return None
        if old is not None and old[3] == MARK and new is not None and op not in ('reserve', 'capacity'):
            if op in ('truncate', 'clear') and st.ent_ge(L.sub(st.g('filled')[1], new[1])):
                self.set(st, 'raw', 0)
                return new[:3] + (L.var(L.sym(fresh('bytes'))),)
            return new[:3] + (MARK,)
        return None

    def elem_read(self, E, st, cell, path, ix, ty):
        if self.get(st, 'raw') and self.marked(E, st, cell, path) is not None and not st.ent_ge(L.sub(L.sub(st.g('filled')[1], ix), L.const(1))):
            self.say(E, 'reads a byte that nothing has filled')
        return None

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        if self.get(st, 'raw'):
            self.more(E, st, cell, path, ix, L.const(1))

    def call(self, E, st, c):
        if c.path in READ and len(c.args) >= 2:
            s = as_slice(E, st, c.args[1], c.argtys[1]) if E.T[c.argtys[1]]['k'] == 'ref' else None
            if s is not None and E.T[c.destty].get('path') == 'std::result::Result':
                n = E.lensym(fresh('io'))
                a = st.copy()
                out = []
                if a.add_ge(L.sub(s[4], n)):
                    self.more(E, a, s[1], s[2], s[3], n)
                    t = E.T[c.destty]['variants'][E.vix(c.destty, 'Ok')]['fields'][0][1]
                    out.append((a, E.variant(c.destty, 'Ok', (('i', n, t),))))
                ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
                out.append((st, E.variant(c.destty, 'Err', (E.mk(fresh('errno'), ety),))))
                return out
        if self.get(st, 'raw') and c.path not in READ:
            self.handed(E, st, c)
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        if b is not None and b.local and b.kind == 'fn' and b.id not in self.hot and '{closure' not in b.path and not self.shares(E, st, c):
            self.summarised[b.path] = 1
            keep = places(st) if self.get(st, 'raw') else []
            for cell, path in keep:
                if cell[0] != 'L' and b.id in self.users and any(a[0] in ('ref', 'sl') for a in c.args):
                    self.say(E, 'calls %s while a buffer it uses counts bytes that nothing has filled' % b.path)
            keep = [(x, E.getp(st, E.rcell(st, x[0]), x[1], None, x[0], ())) for x in keep]
            havoc_args(E, st, c)
            for (cell, path), v in keep:
                E.put(st, cell, path, v, None)
            return [(st, E.mk(fresh('sum', b.path), c.destty))]
        return None

    @property
    def users(self):
        if '_users' not in self.__dict__:
            self._users = upward(self.P, {b.id for b in self.P.bodies.values() if b.local and field_bytes(self.P, b)})
        return self._users

    def shares(self, E, st, c):
        """May the callee read unfilled bytes, or does it hold a lock?"""
        for a, ty in list(zip(c.args, c.argtys)) + [(None, c.destty)]:
            if ty is None:
                continue
            t = E.T[ty]
            if t['k'] == 'closure' or t['k'] == 'ref' and E.T[t['e']]['k'] == 'closure':
                return True
            if t['k'] not in ('ref', 'ptr') and self.has_guard(E, ty):
                return True
            if a is not None and self.get(st, 'raw'):
                if a[0] == 'sl' and self.marked(E, st, a[1], a[2]) is not None:
                    return True
                if a[0] == 'ref' and alive(E.deref(st, a)) is not None:
                    return True
                if a[0] not in ('ref', 'sl') and alive(a) is not None:
                    return True
        return False

    def handed(self, E, st, c):
        """Arguments from which a callee outside the crate reads unfilled bytes."""
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        if b is not None and b.local:
            return
        last = c.path.split('::')[-1]
        for v, t in zip(c.args, c.argtys):
            if t is None or E.T[t]['k'] != 'ref':
                continue
            if v[0] == 'ref' and last in READERS:
                m = alive(E.deref(st, v))
                if m is not None and not st.ent_ge(L.sub(st.g('filled')[1], m[1])):
                    self.say(E, 'hands unfilled bytes to %s' % c.path)
            elif v[0] == 'sl' and not E.T[t].get('mut') and last not in PARTS and self.marked(E, st, v[1], v[2]) is not None:
                if not st.ent_ge(L.sub(st.g('filled')[1], L.add(v[3], v[4]))):
                    self.say(E, 'hands unfilled bytes to %s' % c.path)

    def join_tag(self, J, a, b):
        return MARK if MARK in (a, b) else None


def alive(v):
    """Does a value contain a marked vector?  -> it or None"""
    if v[0] == 'seq':
        return v if v[3] == MARK else None
    if v[0] == 'st':
        l = v[1]
    elif v[0] == 'en':
        l = [x for _, fs in v[3] for x in fs]
    else:
        return None
    for x in l:
        r = alive(x)
        if r is not None:
            return r
    return None


def lift(ctx, P, roots, examine, what):
    """Examine functions; where one does not do alone and is private, the
    functions that call it."""
    pred = callers(P)
    seen, work, res = set(), [(b, 0) for b in roots], []
    while work:
        b, depth = work.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        bad = examine(b)
        ctx.ok(what)
        up = [P.bodies[x] for x in pred.get(b.id, ()) if x in P.bodies]
        up = [x for x in up if x.local]
        if bad and up and b.vis != 'pub' and depth < 6:
            work += [(x, depth + 1) for x in up]
            continue
        for w, l, t, ch in bad:
            ctx.violate(what, w, '%s' % t, loc=l, path=ch, entry=b.path)
    return len(seen)


def calls_any(P, b, paths):
    for blk in b.blocks:
        t = blk['t']
        if t[0] == 'call' and t[1][0] == 'const' and t[1][1][0] == 'fn':
            f = t[1][1][1]
            if (f.get('rpath') or f['path']) in paths or f['path'] in paths:
                return True
    return False


def places(st):
    """Where the marked vectors are."""
    out = []

    def walk(v, cell, path):
        if v[0] == 'seq' and v[3] == MARK:
            out.append((cell, path))
        elif v[0] == 'st':
            for i, x in enumerate(v[1]):
                walk(x, cell, path + (('f', i, None),))
    for c, x in st.mem.items():
        if c[0] != 'G':
            walk(x, c, ())
    return out


def field_bytes(P, b):
    """Does a body use a byte vector that is a field?"""
    def hit(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 3 and x[0] == 'f' and isinstance(x[2], int) and not isinstance(x[1], (list, tuple)) and x[2] < len(P.T):
                t = P.T[x[2]]
                if t.get('path', '').endswith('vec::Vec') and P.T[t['args'][0]]['s'] == 'u8':
                    return True
            return any(hit(y) for y in x)
        return False
    return any(hit(bl['s']) or hit(bl['t']) for bl in b.blocks)


def reach(P, local):
    """Functions that reach a device read or a length change."""
    return upward(P, {b.id for b in local if calls_any(P, b, READ + SETLEN)})


def upward(P, hot):
    pred, work = callers(P), list(hot)
    while work:
        for y in pred.get(work.pop(), ()):
            if y not in hot:
                hot.add(y)
                work.append(y)
    return hot


def unfilled(ctx, P, b, hot):
    pl = Fill(ctx, P, hot)
    E = Engine(P, [pl])
    E.nobits = 64
    st, args, R = EN.entry(E, b)
    pl.init(st)
    for s, v in E.run(b, args, st):
        if not pl.get(s, 'raw'):
            continue
        s.mem[('R',)] = v
        for c, x in s.mem.items():
            m = alive(x) if c[0] not in ('G', 'L') else None
            if m is not None and not s.ent_ge(L.sub(s.g('filled')[1], m[1])):
                pl.bad.append((b.path, b.loc, 'may return while a buffer counts bytes that nothing has filled', []))
                break
    ctx.engine(E)
    ctx.cover('length changes', pl.sets)
    return pl.bad


class Text(Locks):
    split = False
    only_ok = True

    def __init__(self, ctx, P):
        Locks.__init__(self, ctx)
        self.bad = []
        self.seen = 0

    def call(self, E, st, c):
        if c.path in UNCHECKED:
            self.seen += 1
            v = c.args[0]
            s = as_slice(E, st, v, c.argtys[0]) if v[0] in ('ref', 'sl') else None
            if s is None or not self.valid(E, st, s):
                self.bad.append((where(E), loc(E), 'makes text of bytes that are not known to be valid', frames(E)))
            if s is None:
                return None
            return [(st, s)]
        if c.path.split('::')[-1] in ('all', 'any') and 'Iterator' in c.path:
            return self.all_ascii(E, st, c, c.path.endswith('any'))
        return Locks.call(self, E, st, c)

    base = None

    def elem_read(self, E, st, cell, path, ix, ty):
        if E.T[ty]['s'] != 'u8':
            return None
        if self.base is None:
            self.base = (cell, path)
        if self.base != (cell, path):
            return None
        self.settle(E, st)
        x = ('i', L.var(L.sym(fresh('byte'), 0, 255)), ty)
        st.setg('ascb', x)
        st.setg('asci', ('i', ix, usize(E)))
        return x

    def at_head(self, E, st):
        self.settle(E, st)

    def settle(self, E, st):
        """Advance the number of leading bytes known to be ASCII."""
        n, i, x = (st.g(k) for k in ('ascn', 'asci', 'ascb'))
        if st.ent_eq(L.sub(n[1], i[1])) and small(E, st, x):
            st.setg('ascn', ('i', L.add(n[1], L.const(1)), n[2]))

    def start(self, E, st):
        Locks.init(self, st)
        us = usize(E)
        st.setg('ascn', ('i', L.const(0), us))
        st.setg('asci', ('i', L.const(-1), us))
        st.setg('ascb', ('i', L.const(255), E.find_ty(lambda t: t['s'] == 'u8')))

    def valid(self, E, st, s):
        if self.base == (s[1], s[2]):
            self.settle(E, st)
            if st.ent_ge(L.sub(st.g('ascn')[1], L.add(s[3], s[4]))):
                return True
        for k in ('is_ascii', 'utf8ok'):
            for n in self.vars(st, k):
                t = n[0].parts
                if (t[1], t[2]) == (s[1], s[2]) and st.ent_eq(L.sub(t[3], s[3])) and st.ent_eq(L.sub(t[4], s[4])) and \
                        E.assume(st.copy(), B.lnot(n[1])) is None:
                    return True
        for cell, path, lo, vu in E.__dict__.get('utf8pre', []):
            if (cell, path) == (s[1], s[2]) and st.ent_eq(L.sub(lo, s[3])) and st.ent_eq(L.sub(vu, s[4])):
                return True
        return st.ent_eq(s[4])

    def vars(self, st, k):
        return [(t, n) for t, n in self.terms if t.parts[0] == k]

    terms = ()

    def all_ascii(self, E, st, c, any_):
        it = E.deref(st, c.args[0]) if c.args[0][0] == 'ref' else c.args[0]
        while it[0] == 'it' and it[1] == 'copied':
            it = it[2]
        if it[0] != 'it' or it[1] != 'slice':
            return None
        s = it[2]
        u8 = E.find_ty(lambda t: t['s'] == 'u8')
        x = ('i', L.var(L.sym(fresh('byte'), 0, 255)), u8)
        cell = ('L', E.fid(c.ctx + ('all',)), 1)
        s0 = st.copy()
        s0.mem[cell] = c.args[1]
        bc = ('L', E.fid(c.ctx + ('all',)), 2)
        s0.mem[bc] = x
        a = ('ref', bc, ())
        if E.deref(st, c.args[0])[1] == 'copied':
            a = x
        r = E.call_cell(s0, cell, c.argtys[1], [a], c.ctx + ('item',))
        if r is None:
            return None
        for s2, v in r:
            n = v[1] if v[0] == 'b' else None
            if n is None:
                return None
            yes = E.assume(s2, B.lnot(n) if any_ else n)
            if yes is not None and not small(E, yes, x):
                return None
        n = B.var(('t', note(self, tm('is_ascii', s[1], s[2], s[3], s[4]))))
        return [(st, ('b', B.lnot(n) if any_ else n))]


def small(E, st, x):
    """Is a byte below 128?"""
    if st.ent_ge(L.sub(L.const(127), x[1])):
        return True
    b = E.to_bv(st, x, x[2])
    return b is not None and E.assume(st.copy(), b[7]) is None


def note(pl, t):
    n = B.var(('t', t))
    pl.terms = tuple(pl.terms) + ((t, n),)
    return t


def unchecked(ctx, P, b):
    pl = Text(ctx, P)
    E = Engine(P, [pl])
    old = dict(E.models)
    st, args, R = EN.entry(E, b)
    pl.start(E, st)
    from .. import models as M

    def ascii(E, st, c, f=M.is_ascii):
        r = f(E, st, c)
        for s, v in r:
            s0 = as_slice(E, s, c.args[0], c.argtys[0])
            note(pl, tm('is_ascii', s0[1], s0[2], s0[3], s0[4]))
        return r

    def utf8(E, st, c, f=M.from_utf8):
        s0 = as_slice(E, st, c.args[0], c.argtys[0])
        note(pl, tm('utf8ok', s0[1], s0[2], s0[3], s0[4], M.version(E, st, s0[1], s0[2])))
        return f(E, st, c)
    E.models = old
    for k, f in old.items():
        if f is M.is_ascii:
            E.models[k] = ascii
        elif f is M.from_utf8:
            E.models[k] = utf8
    E.run(b, args, st)
    ctx.engine(E)
    ctx.cover('texts made without checking', pl.seen)
    return pl.bad


class Win(Locks):
    names = Locks.names + ('given',)
    split = False
    only_ok = True

    def __init__(self, ctx, P):
        Locks.__init__(self, ctx)
        self.P = P
        self.bad = []
        self.seen = 0
        self.vals = {}

    def call(self, E, st, c):
        if c.path == 'libc::ioctl' and len(c.args) >= 3:
            self.seen += 1
            req = E.to_lin(st, c.args[1], c.argtys[1])
            if not st.ent_eq(L.sub(req, L.const(WINSZ))):
                raise Anchor('ioctl other than the window-size query in ' + where(E))
            t = E.T[c.argtys[2]]
            e = t.get('e')
            a = c.args[2]
            why = layout(E, e) if t['k'] in ('ref', 'ptr') else 'is no pointer to a record'
            if not t.get('mut'):
                why = why or 'may not be written'
            if why is None and a[0] == 'ref':
                v = E.getp(st, E.rcell(st, a[1]), a[2], None, a[1], ())
                if v[0] == 'top':
                    why = 'is not filled before'
            if why:
                self.bad.append((where(E), loc(E), 'the record given to the window-size query %s' % why, frames(E)))
                return None
            if a[0] != 'ref':
                raise Anchor('record of the window size in ' + where(E))
            fs, order = E.T[e]['variants'][0]['fields'], sorted(range(4), key=lambda i: E.T[e]['offsets'][i])
            new = [None] * 4
            for k, i in enumerate(order):
                x = ('i', L.var(L.sym(tm('winsize', k), 0, 65535)), fs[i][1])
                new[i] = x
                if k < 2:
                    st.setg('ws%d' % k, x)
            ok, no = st.copy(), st
            E.put(ok, a[1], a[2], ('st', tuple(new)), e)
            self.set(ok, 'given', 1)
            return [(ok, ('i', L.const(0), c.destty)), (no, ('i', L.const(-1), c.destty))]
        return Locks.call(self, E, st, c)


def layout(E, e):
    """Why a type does not have the layout of struct winsize, or None."""
    t = E.T[e]
    if t['k'] != 'struct':
        return 'is no record'
    if t.get('local') and not t.get('reprc'):
        return 'has no fixed order of fields'
    if t.get('size') != 8 or sorted(t.get('offsets', ())) != [0, 2, 4, 6] or any(E.T[f[1]]['s'] != 'u16' for f in t['variants'][0]['fields']):
        return 'does not consist of four 16-bit numbers'
    return None


def window(ctx, P, b):
    pl = Win(ctx, P)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, b)
    Locks.init(pl, st)
    pl.set(st, 'given', 0)
    u16 = E.find_ty(lambda t: t['s'] == 'u16')
    for k in (0, 1):
        st.setg('ws%d' % k, ('i', L.const(0), u16))
    rt = b.locals[0][0]
    t = E.T[rt]
    for s, v in E.run(b, args, st):
        if t.get('path') != 'std::result::Result' or E.T[t['args'][0]].get('path') != 'terminal::Size':
            continue
        i = E.vix(rt, 'Ok')
        v = E.expand(v) if v[0] == 'sym' else v
        for n, j, s2 in E.split_variant(s.copy(), v):
            if j != i:
                continue
            z = E.payload(v, i, 0)
            z = E.expand(z) if z[0] == 'sym' else z
            fs = E.T[t['args'][0]]['variants'][0]['fields']
            for k, nm in ((0, 'lines'), (1, 'columns')):
                ix = [f[0] for f in fs].index(nm)
                if not s2.ent_eq(L.sub(E.to_lin(s2, z[1][ix], fs[ix][1]), s2.g('ws%d' % k)[1])):
                    pl.bad.append((b.path, b.loc, 'the %s reported are not those the system gave' % nm, []))
    ctx.engine(E)
    ctx.cover('window-size queries', pl.seen)
    return pl.bad


def plain(E, ty, depth=0):
    """Is every bit pattern of a type valid?"""
    t = E.T[ty]
    if t['k'] in ('int', 'float', 'ptr', 'union'):
        return True
    if t['k'] == 'array':
        return plain(E, t['e'], depth + 1)
    if t['k'] == 'tuple':
        return all(plain(E, x, depth + 1) for x in t['e'])
    if t['k'] == 'struct' and depth < 8:
        return all(plain(E, f[1], depth + 1) for f in t['variants'][0]['fields'])
    return False


def zeroed(ctx, P, plat):
    """Types that are made of zero bytes."""
    E = Engine(P, [])
    n = 0
    for b in P.bodies.values():
        if not b.local:
            continue
        for blk in b.blocks:
            t = blk['t']
            if t[0] == 'call' and t[1][0] == 'const' and t[1][1][0] == 'fn' and (t[1][1][1].get('rpath') or t[1][1][1]['path']) in ZERO:
                ty = t[1][1][1]['args'][0]
                n += 1
                ctx.oblige(plain(E, ty) or E.T[ty]['k'] == 'struct' and not E.T[ty].get('local') and zero_ok(E, ty), 'zeroed', b.path,
                           'makes a %s of zero bytes, which is not valid' % E.T[ty]['s'], loc=t[-1] if isinstance(t[-1], list) else b.loc)
    ctx.cover('values made of zero bytes (%s)' % plat, n)


class Uninit(Locks):
    """Values made of memory that nothing has filled."""
    split = False
    only_ok = True

    def __init__(self, ctx):
        Locks.__init__(self, ctx)
        self.bad = []

    def call(self, E, st, c):
        last = c.path.split('::')[-1]
        if 'MaybeUninit' in c.path and last == 'uninit':
            return [(st, ('sym', tm('unfilled', c.loc and tuple(c.loc)), c.destty))]
        if 'MaybeUninit' in c.path and last.startswith('assume_init') or c.path in UNINIT:
            v = c.args[0] if c.args else None
            if v is not None and v[0] == 'ref':
                v = E.deref(st, v)
            if v is None or v[0] == 'sym' and v[1].parts[0] == 'unfilled':
                self.bad.append((where(E), loc(E), 'makes a value of memory that nothing has filled', frames(E)))
        return Locks.call(self, E, st, c)


UNINIT = ('std::mem::uninitialized',)
ASSUME = ('std::mem::MaybeUninit::<T>::assume_init', 'std::mem::MaybeUninit::<T>::assume_init_ref', 'std::mem::MaybeUninit::<T>::assume_init_mut',
          'std::mem::MaybeUninit::<T>::assume_init_read') + UNINIT


def uninit(ctx, P, b):
    pl = Uninit(ctx)
    E = Engine(P, [pl])
    E.nobits = 64
    st, args, R = EN.entry(E, b)
    Locks.init(pl, st)
    E.run(b, args, st)
    ctx.engine(E)
    return pl.bad


def zero_ok(E, ty):
    """Valid when zero: also enumerations with a zero discriminant are not looked at further."""
    t = E.T[ty]
    return all(plain(E, f[1]) or E.T[f[1]]['k'] == 'enum' and any(v['discr'] == 0 for v in E.T[f[1]]['variants']) for f in t['variants'][0]['fields'])


def run(ctx):
    for plat in ('unix', 'windows'):
        P = ctx.P(plat)
        local = [b for b in P.bodies.values() if b.local and 'verif_witness' not in b.path]
        hot = reach(P, local)
        n = lift(ctx, P, [b for b in local if calls_any(P, b, SETLEN)], lambda b: unfilled(ctx, P, b, hot), 'unfilled')
        ctx.cover('functions examined for unfilled bytes (%s)' % plat, n)
        n = lift(ctx, P, [b for b in local if calls_any(P, b, UNCHECKED)], lambda b: unchecked(ctx, P, b), 'unchecked-text')
        ctx.cover('functions examined for unchecked text (%s)' % plat, n)
        zeroed(ctx, P, plat)
        n = lift(ctx, P, [b for b in local if calls_any(P, b, ASSUME)], lambda b: uninit(ctx, P, b), 'uninitialised')
        ctx.cover('functions examined for uninitialised values (%s)' % plat, n)
        if plat == 'unix':
            l = [b for b in local if calls_any(P, b, ('libc::ioctl',))]
            lift(ctx, P, l, lambda b: window(ctx, P, b), 'window-size')
