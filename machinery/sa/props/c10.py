"""Failing steps.  Every public operation that returns a result and can reach
an operating-system call, the opening of the terminal description or the
expansion of a capability is interpreted; each such step may fail (not by
interruption).  After a failing step the operation must return an error.
Calls of functions of the crate returning a result are replaced by their own
outcomes, computed the same way.  What a destructor does has no result to
return an error in and does not count."""
from .sig import *
from ..models import not_interrupted
from .c03 import entries, held_by

ID = 'C10'
PURE = ('try_from', 'from_str', 'branch', 'from_residual', 'try_into')
SYS = ('nix::', 'libc::', 'terminfo::')
STD = ('std::fs::', 'std::io::', 'std::os::')
INT = ('libc::ioctl', 'libc::close', 'libc::open', 'libc::tcgetattr', 'libc::tcsetattr', 'libc::sigaction', 'libc::read', 'libc::write',
       'libc::select', 'libc::poll', 'libc::fcntl', 'libc::pselect', 'libc::ppoll', 'libc::tcflush', 'libc::tcdrain')


def fails(path):
    """Can the call of this function fail?  'result' or 'int' (negative)"""
    last = path.split('::')[-1]
    if path in INT:
        return 'int'
    if last in PURE or path.startswith('<'):
        return None
    if path.startswith(SYS) or path.startswith(STD):
        return 'result'
    return None


def result_at(T, ty):
    """Where the io::Result is in a value of this type: () itself, (i,) in a tuple."""
    t = T[ty]
    if t.get('path') == 'std::result::Result':
        return ()
    if t['k'] == 'tuple':
        for i, e in enumerate(t['e']):
            if T[e].get('path') == 'std::result::Result' and 'io::Error' in T[e]['s']:
                return (i,)
    return None


class Fault(Locks, Summ):
    """failed: the step that failed"""
    names = ('held', 'failed')
    split = False
    only_ok = True
    keep = frozenset(('fault',))

    def __init__(self, ctx, P):
        Locks.__init__(self, ctx)
        c = P.__dict__.setdefault('_faulty', {})

        def cls(p):
            return 'fault' if fails(p) and c.get(p, True) else None
        if not c:
            # of the functions named like steps only those returning a result count
            for b in P.bodies.values():
                for i, bl in enumerate(b.blocks):
                    t = bl['t']
                    if t[0] != 'call':
                        continue
                    f = P.callee_of(b, t[1])
                    if f is None:
                        continue
                    p = f.get('rpath') or f['path']
                    if fails(p) == 'result':
                        d = t[3]
                        ty = b.locals[d[0]][0] if isinstance(d, list) and len(d) and isinstance(d[0], int) else None
                        c[p] = c.get(p, False) or (isinstance(ty, int) and P.T[ty].get('path') == 'std::result::Result')
        Summ.setup(self, P, cls, None, 'c10')
        self.may = lambda p: fails(p) if c.get(p, True) else None
        self.steps = {}

    def init(self, st, held=()):
        Locks.init(self, st, held)
        self.set(st, 'failed', '')

    def fail(self, E, st, what):
        if any(b.path.endswith('as std::ops::Drop>::drop') for b, _ in E.frames):
            return
        if not self.get(st, 'failed'):
            self.set(st, 'failed', what)

    def call(self, E, st, c):
        r = Locks.call(self, E, st, c)
        if r is not None:
            return r
        k = self.may(c.path)
        if k:
            nm = '%s in %s' % (short_name(c.path), where(E))
            if k == 'result' and E.T[c.destty].get('path') != 'std::result::Result':
                return None
            self.steps[nm] = c.loc
            out = []
            if k == 'int':
                ok = st.copy()
                v = E.mk(fresh('n'), c.destty)
                if c.path == 'libc::ioctl':
                    havoc_args(E, ok, c)
                out.append((ok, ('i', L.const(0), c.destty) if c.path == 'libc::ioctl' else v))
                f = st.copy()
                self.fail(E, f, nm)
                out.append((f, ('i', L.const(-1), c.destty)))
                return out
            ok = st.copy()
            ty = okty(E, c.destty)
            v = E.mk(fresh('n'), ty)
            if c.path in READS or c.path in WRITES:
                s = as_slice(E, st, c.args[1], c.argtys[1])
                ok.add_ge(L.sub(s[4], v[1]))
                ok.add_ge(v[1])
            elif c.path in WAITS:
                ok.add_ge(v[1])
            else:
                havoc_args(E, ok, c)
            out.append((ok, E.variant(c.destty, 'Ok', (v,))))
            f = st
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            err = E.mk(fresh('err'), ety)
            f = uninterrupted(E, f, err, ety)
            if f is not None:
                self.fail(E, f, nm)
                out.append((f, E.variant(c.destty, 'Err', (err,))))
            return out
        b = E.P.bodies.get((c.callee or {}).get('inst'))
        if b is None or not b.local or b.kind != 'fn':
            return None
        if 'fault' in self.effects.of(b.id):
            at = result_at(E.T, c.destty)
            if at is None or '{closure' in b.path or self.has_guard(E, c.destty) or any(self.has_guard(E, t) for t in c.argtys) \
                    or any(E.T[t]['k'] == 'closure' for t in c.argtys):
                return None
            out = self.outcomes(E.P, b)
            havoc_args(E, st, c)
            r = []
            for k, what in sorted(out):
                s = st.copy()
                if what:
                    self.fail(E, s, what)
                rty = c.destty if at == () else E.T[c.destty]['e'][at[0]]
                ty = E.T[rty]['variants'][E.vix(rty, k)]['fields'][0][1]
                x = E.mk(fresh('res'), ty)
                if what and k == 'Err':
                    s = uninterrupted(E, s, x, ty)
                    if s is None:
                        continue
                v = E.variant(rty, k, (x,))
                if at:
                    v = ('st', tuple(v if i == at[0] else E.mk(fresh('res', i), e) for i, e in enumerate(E.T[c.destty]['e'])))
                r.append((s, v))
            return r
        return self.summarise(E, st, c)

    def outcomes(self, P, b):
        """{(Ok or Err, step that failed)} of a function, from any state."""
        m = P.__dict__.setdefault('_c10', {})
        if b.id not in m:
            # a recursive call behaves as required (induction on the depth of calls)
            m[b.id] = {('Ok', ''), ('Err', ''), ('Err', 'a recursive call of ' + b.path)}, Fault(self.ctx, P)
            m[b.id] = analyse(self.ctx, P, b)
        out, pl = m[b.id]
        self.steps.update(pl.steps)
        return out


def uninterrupted(E, st, err, ty):
    """The error of a step that failed is not that it was interrupted."""
    if 'EINTR' in [x['name'] for x in E.T[ty].get('variants', ())]:
        return E.assume(st, B.lnot(E.en_is(err, E.vix(ty, 'EINTR'))))
    if E.T[ty].get('path') == 'std::io::Error':
        return not_interrupted(E, st, err)
    return st


def short_name(p):
    return '::'.join(p.replace("<'a, T>::", '').split('::')[-2:])


def analyse(ctx, P, b):
    pl = Fault(ctx, P)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, b)
    E.coarse = True
    held = []
    for k, a in enumerate(args):
        held += held_by(E, st, a, b.locals[k + 1][0], pl)
    pl.init(st, held)
    out = set()
    at = result_at(P.T, b.locals[0][0])
    for s0, v in E.run(b, args, st):
        if at:
            if v[0] == 'sym':
                v = E.expand(v)
            v = v[1][at[0]]
            if v[0] == 'sym':
                v = E.expand(v)
        for k, s in ret_split(E, s0, v):
            # one failing step for each kind of result is enough
            out.add((k, pl.get(s, 'failed')))
    ctx.engine(E)
    err = sorted(x for x in out if x[0] == 'Err' and x[1])
    return {x for x in out if x[0] != 'Err' or not x[1]} | set(err[:1]), pl


def run(ctx):
    P = ctx.P()
    n = 0
    steps = {}
    base = Fault(ctx, P)
    for b in entries(P):
        t = P.T[b.locals[0][0]]
        if t.get('path') != 'std::result::Result' or 'fault' not in base.effects.of(b.id):
            continue
        base.outcomes(P, b)
        out, pl = P._c10[b.id]
        n += 1
        nm = b.path.replace("::<'a>", '').replace("<'a>", '')
        for k, what in sorted(out):
            ctx.oblige(not what or k == 'Err', 'failure-reported', nm, 'can return success after %s failed' % what, loc=b.loc)
        steps.update(pl.steps)
    for k in sorted(steps):
        ctx.sample('steps that can fail', '%s %s' % (k, steps[k]))
    ctx.floor('steps that can fail', len(steps), 6)
    ctx.floor('operations', n, 40)
