"""Ownership of descriptors.  A typestate analysis of the constructors and of
the drop glue applied to each value they return: every descriptor obtained
from the system is file-owned, raw or closed.  Rules: an error return leaves no
raw descriptor; a terminal from a path closes its descriptor exactly once when
dropped; a terminal on a standard stream closes nothing; no device call uses a
closed descriptor, or one the terminal was not given; every other public
operation reaches no closing primitive through the call graph."""
from .common import *
from .locks import Locks
import re

ID = 'C20'
FILE = 'std::fs::File'
OPENERS = ('std::fs::OpenOptions::open', 'std::fs::File::open', 'std::fs::File::create', 'std::fs::OpenOptions::_open')
RAWOPEN = ('nix::fcntl::open', 'libc::open', 'libc::open64')
CLOSERS = ('libc::close', 'nix::unistd::close')
DUPS = ('libc::dup', 'nix::unistd::dup', 'libc::dup2', 'nix::unistd::dup2', 'std::fs::File::try_clone')
DEVICE = ('nix::unistd::write', 'nix::unistd::read', 'libc::write', 'libc::read', 'libc::ioctl', 'nix::sys::termios::tcgetattr',
          'nix::sys::termios::tcsetattr', 'nix::unistd::isatty')
OWNERS = (FILE, 'std::os::fd::OwnedFd', 'std::os::unix::io::OwnedFd')


class Fds(Locks):
    names = ('held', 'out', 'fd', 'opt')

    def __init__(self, ctx):
        Locks.__init__(self, ctx)
        self.sites = set()
        self.phase = None
        self.entry = None
        self.device = 0

    def init(self, st):
        Locks.init(self, st)
        self.set(st, 'fd', ())
        self.set(st, 'opt', ())

    # ---- descriptor table: ((key, linear value, state), …)
    def sym(self, E, st, l):
        for k, v, s in self.get(st, 'fd'):
            if st.ent_eq(L.sub(l, v)):
                return k
        return None

    def upd(self, st, k, state):
        self.set(st, 'fd', tuple((a, v, state if a == k else s) for a, v, s in self.get(st, 'fd')))

    def state(self, st, k):
        for a, v, s in self.get(st, 'fd'):
            if a == k:
                return s
        return None

    def new(self, E, st, ity, state):
        n = len(self.get(st, 'fd'))
        k = 'fd%d' % n
        v = E.mk(tm('descriptor', n), ity)
        st.add_ge(v[1])
        self.set(st, 'fd', self.get(st, 'fd') + ((k, v[1], state),))
        return k, v

    def ob(self, E, c, rule, what):
        self.ctx.oblige(c, rule, where(E), what, loc=loc(E), path=frames(E), entry=self.entry)

    def close(self, E, st, k, l=None):
        self.sites.add((where(E), 'close'))
        if k is None:
            self.ob(E, False, 'close-own', 'closes a descriptor the terminal was not given by its own open')
            return
        self.ob(E, self.state(st, k) != 'closed', 'close-once', 'closes a descriptor that is closed already')
        self.upd(st, k, 'closed')

    def call(self, E, st, c):
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        p = c.path
        i32 = self.i32
        if p in OPENERS:
            self.sites.add((where(E), 'open'))
            out = []
            a = st.copy()
            k, v = self.new(E, a, i32, 'file')
            fty = okty(E, c.destty)
            out.append((a, E.variant(c.destty, 'Ok', (('sym', tm('file', k), fty),))))
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            out.append((st.copy(), E.variant(c.destty, 'Err', (E.mk(fresh('openerr'), ety),))))
            return out
        if p in RAWOPEN:
            raise Anchor('raw open in ' + where(E))
        if p in DUPS:
            raise Anchor('duplicated descriptor in ' + where(E))
        nm = (c.callee or {}).get('name', '')
        if nm == 'into_raw_fd' or nm == 'as_raw_fd' or nm == 'as_fd':
            v = c.args[0]
            if v[0] == 'ref':
                v = E.deref(st, v)
            k = self.filekey(v)
            if k is None:
                raise Anchor('descriptor of a file in ' + where(E))
            self.sites.add((where(E), nm))
            if nm == 'into_raw_fd':
                self.upd(st, k, 'raw')
            return [(st, ('i', [x[1] for x in self.get(st, 'fd') if x[0] == k][0], i32))]
        if nm == 'from_raw_fd':
            k = self.sym(E, st, E.to_lin(st, c.args[0], i32))
            self.sites.add((where(E), nm))
            if k is not None:
                self.ob(E, self.state(st, k) != 'closed', 'close-once', 'takes over a descriptor that is closed already')
                self.upd(st, k, 'file')
            return [(st, ('sym', tm('file', k), c.destty))]
        if p in CLOSERS:
            self.close(E, st, self.sym(E, st, E.to_lin(st, c.args[0], i32)))
            return [(st, E.mk(fresh('closed'), c.destty))]
        if p in DEVICE:
            self.device += 1
            self.sites.add((where(E), p))
            l = E.to_lin(st, c.args[0], i32)
            k = self.sym(E, st, l)
            if k is not None:
                self.ob(E, self.state(st, k) != 'closed', 'use-after-close', 'uses a descriptor after it was closed')
            elif self.phase == 'path':
                self.ob(E, False, 'own-descriptor', 'uses a descriptor other than the one opened')
            else:
                self.ob(E, L.is_const(l) and 0 <= l[0] <= 2, 'own-descriptor', 'a terminal on a standard stream uses another descriptor')
            return None
        if 'SequenceMap' in p and nm == 'insert':
            return [(st, E.mk(fresh('old'), c.destty))]
        return None

    def filekey(self, v):
        while v[0] == 'st' and len(v[1]) == 1:
            v = v[1][0]
        if v[0] == 'sym' and v[1].parts[0] == 'file':
            return v[1].parts[1]
        return None

    def on_drop(self, E, st, ty, cell, path, val, l):
        Locks.on_drop(self, E, st, ty, cell, path, val, l)
        if E.T[ty].get('path') in OWNERS:
            if val[0] != 'sym' or val[1].parts[0] != 'file':
                raise Anchor('origin of a dropped file in ' + where(E))
            self.close(E, st, val[1].parts[1], l)

    def on_panic(self, E, st, kind, l, chain):
        if self.phase2 == 'drop':
            self.ctx.oblige(False, 'drop-completes', self.entry, 'can panic (%s) before the descriptor is closed' % kind, loc=l,
                            path=['%s (%s)' % x for x in chain])


def construct(ctx, P, body, phase, streams=None):
    pl = Fds(ctx)
    pl.phase, pl.phase2, pl.entry = phase, 'open', body.path
    E = Engine(P, [pl])
    E.coarse = True
    pl.i32 = E.find_ty(lambda t: t['s'] == 'i32')
    st, args, R = EN.entry(E, body)
    pl.init(st)
    glue = fn(P, 'verif_witness::term::drop_terminal')
    oks = errs = 0
    for s0, v in E.run(body, args, st):
        for k, s in ret_split(E, s0, v):
            fds = pl.get(s, 'fd')
            if k != 'Ok':
                errs += 1
                for f, l, stt in fds:
                    ctx.oblige(stt == 'closed', 'closed-on-error', body.path, 'returns an error without closing the descriptor it opened', loc=body.loc)
                continue
            oks += 1
            pl.entry = 'drop of the terminal made by ' + body.path
            for f, l, stt in fds:
                ctx.oblige(stt == 'raw', 'open-on-success', body.path, 'returns a terminal whose descriptor is %s' % ('closed' if stt == 'closed' else 'still owned by a file'), loc=body.loc)
            if phase == 'path':
                ctx.oblige(len(fds) == 1, 'open-on-success', body.path, 'opens %d descriptors' % len(fds), loc=body.loc)
            val = E.payload(v, E.vix(v[1], 'Ok'), 0)
            pl.phase2 = 'drop'
            E.coarse = False
            ends = E.run(glue, [val], s)
            E.coarse = True
            ctx.oblige(bool(ends), 'drop-completes', pl.entry, 'the destructor never returns', loc=body.loc)
            for s1, _ in ends:
                for f, l, stt in pl.get(s1, 'fd'):
                    ctx.oblige(stt == 'closed', 'closed-on-drop', pl.entry, 'the descriptor stays open', loc=body.loc)
            pl.phase2, pl.entry = 'open', body.path
    ctx.engine(E)
    for w in sorted(pl.sites):
        ctx.sample('sites', '%s: %s' % w)
    return oks, errs, pl.device


def closing(P):
    """Bodies that call a closing primitive or drop a file."""
    out = {}
    for b in P.bodies.values():
        for bl in b.blocks:
            t = bl['t']
            if t[0] == 'call' and t[1][0] == 'const' and t[1][1][0] == 'fn':
                f = t[1][1][1]
                if f['path'] in CLOSERS or f['name'] == 'from_raw_fd':
                    out[b.id] = f['path']
            if t[0] == 'drop':
                ty = P.T[t[2]]
                if ty.get('path') in OWNERS:
                    out[b.id] = 'drop of ' + ty['path']
    return out


def reach(P, b):
    """Call-graph closure: id -> predecessor."""
    pre = {b.id: None}
    work = [b]
    while work:
        x = work.pop()
        for bl in x.blocks:
            t = bl['t']
            ids = []
            if t[0] == 'call' and t[1][0] == 'const' and t[1][1][0] == 'fn':
                ids.append(t[1][1][1].get('inst'))
            if t[0] == 'drop' and len(t) > 2:
                ids += [y for y in t if isinstance(y, str)]
            for i in ids:
                y = P.bodies.get(i)
                if y is not None and y.id not in pre:
                    pre[y.id] = x.id
                    work.append(y)
    return pre


def run(ctx):
    P = ctx.P()
    n = 0
    T = 'terminal::Terminal'
    ops = []
    std = [p for p, b in methods(P, T).items() if b.argc == 0 and P.T[b.locals[0][0]].get('path') == 'std::result::Result']
    ctx.floor('standard stream constructors', len(std), 2)
    for path, phase in [('verif_witness::term::from_path', 'path')] + [(p, 'std') for p in sorted(std)]:
        o, e, d = construct(ctx, P, fn(P, path), phase)
        ctx.cover('constructors', 1)
        ctx.floor(path + ' success states', o, 1)
        n += d
    ctx.floor('device call evaluations', n, 3)
    # no other operation closes anything
    prim = closing(P)
    ctx.floor('closing primitives', len(prim), 1)
    for pre in ("terminal::Terminal", "terminal::TerminalReadGuard::<'a>", "terminal::TerminalWriteGuard::<'a>", 'screen::Screen',
                "screen::ScreenReadGuard::<'a>", "screen::ScreenWriteGuard::<'a>"):
        for p, b in methods(P, pre).items():
            if not b.argc or p.startswith('screen::Screen::') and 'PrepareConfig' in P.T[b.locals[b.argc][0]]['s']:
                continue
            ops.append(b)
    for m in ('term', 'scr'):
        for g in ('read', 'write'):
            ops.append(fn(P, 'verif_witness::%s::drop_%s' % (m, g)))
    for b in ops:
        pre = reach(P, b)
        hit = [i for i in pre if i in prim]
        path = []
        if hit:
            i = hit[0]
            while i is not None:
                path.append('%s (%s)' % (P.bodies[i].path, P.bodies[i].loc))
                i = pre[i]
        ctx.oblige(not hit, 'no-other-close', b.path, 'reaches %s' % (prim[hit[0]] if hit else ''), loc=b.loc, path=path[::-1])
    ctx.floor('other operations', len(ops), 20)
