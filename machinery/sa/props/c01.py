"""Output stream accounting.  Every byte handed to the terminal writer has a
position in the output stream; the analysis tracks, in a linear-arithmetic
abstract domain over the MIR of the public write path, the position of the
device, of the output buffer and of the payload.  Rules, on every path and for
every result of the write system call (short counts, interruption, failure):
a write passes the bytes at the device's current position and no others; bytes
enter the buffer only at the end of the stream; only bytes the system accepted
leave the buffer; a success return has taken the whole payload; an error
return keeps every accepted-but-unwritten byte that was already queued."""
from .common import *

ID = 'C01'


class Stream(Plugin):
    def __init__(self, ctx, entry):
        self.ctx = ctx
        self.entry = entry
        self.cell = None
        self.path = None
        self.writes = 0
        self.ops = 0
        self.kinds = set()

    def W(self, st):
        return st.g('W')[1]

    def setW(self, st, l):
        st.setg('W', ('i', l, self.us))

    def key(self, st):
        # keep "buffer empty" and "nothing written yet" apart
        b = self.E.getp(st, self.E.rcell(st, self.cell), self.fpath, None, self.cell, ())
        return (b[0] == 'seq' and st.ent_eq(b[1]), st.ent_eq(L.sub(self.W(st), self.W0)))

    def is_buf(self, cell, path):
        return cell == self.cell and tuple(p[:2] for p in path) == self.path

    def call(self, E, st, c):
        if c.path == 'nix::unistd::write' or c.path in ('libc::write',):
            s = as_slice(E, st, c.args[1], c.argtys[1])
            self.writes += 1
            self.kinds.add((where(E), c.path))
            t = tag_of(E, st, s)
            ok = t is not None and st.ent_eq(L.sub(t, self.W(st)))
            self.ctx.oblige(ok, 'write-at-device-position', where(E), 'the slice passed to write() does not start at the first unsent byte',
                            loc=c.loc, path=frames(E), entry=self.entry)
            n = E.lensym(fresh('io'))
            out = []
            a = st.copy()
            a.add_ge(L.sub(s[4], n))
            self.setW(a, L.add(self.W(a), n))
            t = okty(E, c.destty)
            out.append((a, E.variant(c.destty, 'Ok', (('i', n, t),))))
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            out.append((st.copy(), E.variant(c.destty, 'Err', (E.mk(fresh('errno'), ety),))))
            return out
        return None

    def seq(self, E, st, op, cell, path, kw):
        if cell is None or not self.is_buf(cell, path):
            return None
        self.ops += 1
        self.kinds.add((where(E), op))
        old, new = kw.get('old'), kw.get('new')
        w = self.W(st)

        def ob(cond, what):
            self.ctx.oblige(cond, 'buffer-' + op, where(E), what, loc=loc(E), path=frames(E), entry=self.entry)
        empty = st.ent_eq(old[1])
        end = w if empty else (L.add(old[3], old[1]) if old[3] is not None else None)
        base = w if empty else old[3]
        if op in ('append', 'push'):
            return ('seq', new[1], new[2], base)
        if op == 'extend':
            src = kw.get('src')
            t = tag_of(E, st, src) if src is not None else None
            if src is not None and src[1][0] == 'B':
                return ('seq', new[1], new[2], base)       # constant bytes: appended at the end
            ob(t is not None and end is not None and st.ent_eq(L.sub(t, end)), 'bytes appended to the output buffer do not continue the stream')
            return ('seq', new[1], new[2], base)
        if op == 'drain':
            lo, hi = kw['lo'], kw['hi']
            good = st.ent_eq(lo) and old[3] is not None and (st.ent_eq(hi) or st.ent_ge(L.sub(w, L.add(old[3], hi))))
            ob(good, 'bytes that were not written yet are removed from the output buffer')
            return None
        if op == 'truncate':
            n = kw['n']
            good = st.ent_eq(old[1]) or (old[3] is not None and st.ent_eq(n) and st.ent_ge(L.sub(w, L.add(old[3], old[1]))))
            ob(good, 'the output buffer is cut while it holds unwritten bytes')
            return None
        if op == 'reserve':
            return None
        ob(False, 'the output buffer is modified other than by appending or removing written bytes')
        return None


def run_entry(ctx, P, b, name, mode):
    pl = Stream(ctx, name)
    E = Engine(P, [pl])
    pl.us = usize(E)
    st, args, R = EN.entry(E, b)
    data, wty = writer_cell(E, R)
    i, fty = field_of_type(E, wty, is_vec_u8(E), 'output buffer')
    pl.cell, pl.path = data[1], (('f', i),)
    W0 = L.var(L.sym(tm('arg', 'W0')))
    n = E.lensym(tm('arg', 'outlen'))
    cap = E.lensym(tm('arg', 'outcap'))
    st.add_ge(L.sub(cap, n))
    E.put(st, data[1], data[2] + (('f', i, fty),), ('seq', n, cap, W0), None)
    pl.setW(st, W0)
    pl.E, pl.W0, pl.fpath = E, W0, data[2] + (('f', i, fty),)
    p0 = L.add(W0, n)
    pe = p0
    if mode == 'str':
        a = args[-1]
        assert a[0] == 'sl'
        E.put(st, a[1], (), ('seq', a[4], None, p0), None)
        pe = L.add(p0, a[4])
    elif mode == 'char':
        from ..models import utf8len
        l = args[-1][1]
        st.add_eq(L.sub(L.var(L.sym(tm('utf8base', l))), p0))
        pe = L.add(p0, utf8len(E, st, l))
    rets = E.run(b, args, st)
    ctx.engine(E)
    fin = 0
    for s0, v in rets:
        for kind, s in ret_split(E, s0, v):
            fin += 1
            buf = E.getp(s, E.rcell(s, data[1]), data[2] + (('f', i, fty),), None, data[1], ())
            if buf[0] != 'seq':
                ctx.oblige(False, 'exit', name, 'the output buffer has unknown contents at return')
                continue
            z, nz = split_eq0(E, s, buf[1])
            for part, sub in (('empty', z), ('nonempty', nz)):
                if sub is None:
                    continue
                w = pl.W(sub)
                if part == 'empty':
                    end = w
                    kept = True
                else:
                    kept = buf[3] is not None and sub.ent_eq(L.sub(buf[3], w))
                    end = L.add(buf[3], buf[1]) if buf[3] is not None else w
                ctx.oblige(kept, 'exit-queue', name, 'at %s return the queued bytes do not start at the device position' % (kind or 'normal'))
                if mode == 'any':
                    ctx.oblige(sub.ent_ge(L.sub(end, p0)), 'exit-no-loss', name, 'bytes queued before the call are lost at %s return' % kind)
                    continue
                if mode == 'drop':
                    ctx.oblige(sub.ent_eq(L.sub(end, p0)), 'exit-no-loss', name, 'queued bytes are lost or repeated when the writer is released')
                    continue
                if kind == 'Ok':
                    ctx.oblige(sub.ent_eq(L.sub(end, pe)), 'exit-complete', name, 'success is returned although not exactly the payload was taken')
                    if mode == 'flush':
                        ctx.oblige(sub.ent_eq(L.sub(w, pe)), 'flush-complete', name, 'flush reports success with unwritten bytes')
                else:
                    ctx.oblige(sub.ent_ge(L.sub(end, p0)), 'exit-no-loss', name, 'bytes queued before the call are lost when the call fails')
                    ctx.oblige(sub.ent_ge(L.sub(pe, end)), 'exit-no-excess', name, 'more than the payload is queued when the call fails')
    return pl, fin


def run(ctx):
    P = ctx.P()
    G = "terminal::TerminalWriteGuard::<'a>"
    ents = [(fn(P, G + '::write_str'), 'str'), (fn(P, G + '::write_char'), 'char'), (fn(P, G + '::flush'), 'flush'),
            (drop_glue(P, 'terminal::TerminalWriteGuard'), 'drop')]
    T = 'terminal::Terminal'
    w = ops = fin = 0
    kinds = set()
    for b, mode in ents:
        nm = b.path if mode != 'drop' else 'drop of terminal::TerminalWriteGuard'
        pl, f = run_entry(ctx, P, b, nm, mode)
        w += pl.writes
        ops += pl.ops
        fin += f
        kinds |= pl.kinds
    for k in sorted(kinds):
        ctx.sample('sites', '%s: %s' % k)
    ctx.floor('entries', len(ents), 4)
    ctx.floor('write_syscall_evaluations', w, 4)
    ctx.floor('buffer_operation_evaluations', ops, 4)
    ctx.floor('exit_states', fin, 7)
