"""C13: a refresh sends every changed cell once, at its position, with its
attributes.

Two steps.  (a) The scan of the cell arrays is interpreted from an arbitrary
index with as many indices as the cell there has columns (the loop has no other
state, so this is one step of an induction over the array): it either hands out
the cell at the index, with its position, after recording it in the array of
what the terminal shows, or finds the two arrays equal there in every field;
either way the columns overlapped by the character are skipped and recorded as
unknown.  (b) The refresh of a screen is interpreted with the scan replaced by
that contract and the operations on the terminal by their effect on a ghost
device (cursor, attributes), from every consistent state of the tracked cursor
and the redraw flag."""
from .cells import *
import re


class Stray(Exception):
    pass


class Scan(Cells):
    """Ghosts: bwix/bwval the last cell recorded as shown, bwn how many; invn how
    many cells recorded as unknown."""
    names = ('at',)

    def start(self, E, st):
        us = usize(E)
        for g in ('bwn', 'invn'):
            st.setg(g, ('i', L.const(0), us))
        st.setg('bwix', ('i', L.const(0), us))
        st.setg('bwval', ('st', tuple(E.mk(tm('nowrite', i), f[1]) for i, f in enumerate(E.T[self.cty]['variants'][0]['fields']))))
        st.setg('bver', ('i', L.var(L.sym(tm('bver', 0))), usize(E)))
        self.set(st, 'at', 0)
        self.faults = []

    def is_front(self, path):
        return any(p[0] == 'f' and p[1] == self.fix for p in path[:1])

    def elem_read(self, E, st, cell, path, ix, ty):
        if ty != self.cty or not path:
            return None
        # the drawn array is not written here; the other one has its own version
        v = st.g('ver')
        if self.is_front(path):
            self.set(st, 'at', 1)
            if st.ent_ge(L.sub(L.sub(ix, self.i0), L.const(1))):
                raise Stray(loc(E))
        st.setg('ver', ('i', L.var(L.sym(tm('front'))) if self.is_front(path) else
                       st.g('bver')[1] if st.ent_eq(L.sub(ix, self.i0)) else L.var(L.sym(fresh('bver'))), usize(E)))
        r = Cells.elem_read(self, E, st, cell, path, ix, ty)
        st.setg('ver', v)
        return r

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        us = usize(E)
        if self.is_front(path):
            self.faults.append(('the scan changes the drawn cells', loc(E)))
            return
        d = L.sub(ix, self.i0)
        if not (st.ent_ge(L.sub(d, L.const(1))) or st.ent_ge(L.sub(L.scale(d, -1), L.const(1)))):
            st.setg('bver', ('i', L.var(L.sym(fresh('bver'))), us))
        if val[0] == 'sym':
            val = E.expand(val)
        if rest or val[0] != 'st':
            self.faults.append(('part of a cell is recorded as shown', loc(E)))
            return
        x = val[1][self.tix]
        if x[0] == 'seq' and st.ent_eq(x[1]):
            n = st.g('invn')
            want = L.add(L.add(self.i0, n[1]), L.const(1))
            if not st.ent_eq(L.sub(ix, want)):
                self.faults.append(('records an unexpected cell as unknown', loc(E)))
            st.setg('invn', ('i', L.add(n[1], L.const(1)), us))
            return
        st.setg('bwn', ('i', L.add(st.g('bwn')[1], L.const(1)), us))
        st.setg('bwix', ('i', ix, us))
        st.setg('bwval', val)

    def seqtag(self, E, st, a, ty):
        try:
            s = as_slice(E, st, a, ty)
        except Exception:
            return None
        v = E.getp(st, E.rcell(st, s[1]), s[2], None, s[1], ())
        return v[3] if v[0] == 'seq' and st.ent_eq(s[3]) else None

    def call(self, E, st, c):
        if c.path.endswith(('::eq', '::ne')) and len(c.args) == 2 and c.argtys[0] is not None and c.callee.get('inst') not in E.P.bodies:
            a, b = self.seqtag(E, st, c.args[0], c.argtys[0]), self.seqtag(E, st, c.args[1], c.argtys[1])
            if a is not None and b is not None and E.tk(c.destty) == 'bool':
                n = self.texteq(a, b)
                return [(st, ('b', B.lnot(n) if c.path.endswith('ne') else n))]
        return Cells.call(self, E, st, c)

    def texteq(self, a, b):
        return 1 if a == b else B.var(('t', tm('texteq', *sorted((a, b), key=repr))))


def same_cell(pl, E, st, a, b):
    """BDD: are two cell values equal in every field? -> [(field, node)]"""
    a, b = (E.expand(x) if x[0] == 'sym' else x for x in (a, b))
    out = []
    for i, f in enumerate(E.T[pl.cty]['variants'][0]['fields']):
        x, y = a[1][i], b[1][i]
        if i == pl.tix:
            n = pl.texteq(x[3], y[3]) if x[0] == 'seq' and y[0] == 'seq' and x[3] is not None and y[3] is not None else 0
        else:
            n = E.equal(st, x, y, f[1])
        out.append((f[0], n))
    return out


def scan_ops(P):
    """The operations that hand out cells to be drawn."""
    out = []
    for b in operations(P):
        t = P.T[b.locals[0][0]]
        if t.get('path') == 'std::option::Option':
            i = P.T[t['args'][0]]
            if i['k'] == 'tuple' and any(P.T[x].get('path') == 'buffer::Cell' for x in i['e']):
                out.append(b)
    return out


def check_scan(ctx, P, b, good, front_name):
    nm = b.path.replace('buffer::', '')
    box = {}

    def assume(run, st, args):
        E, pl = run.E, run.pl
        pl.fix = [i for i, n, _ in pl.vecs if n == front_name][0]
        pl.bix = [i for i, n, _ in pl.vecs if n != front_name]
        if len(pl.bix) != 1:
            raise Anchor('the array of shown cells')
        pl.bix = pl.bix[0]
        pl.start(E, st)
        rng = [i for i in range(len(args)) if run.b.argc > i and is_range_arg(E, run.b.locals[i + 1][0])]
        if len(rng) != 1:
            raise Anchor('the index range of ' + nm)
        box['rng'] = rng[0]
        v = E.deref(st, args[rng[0]])
        lo, hi = v[1][0][1], v[1][1][1]
        pl.i0 = lo
        fields = dict((i, ty) for i, n, ty in pl.vecs)
        # inside the array, with one index for each column of the character there
        # (lo = row * columns + column)
        lines, cols = run.dims
        row, col = L.var(L.sym(tm('row'), 0, 65535)), L.var(L.sym(tm('col'), 0, 65535))
        for l in (L.sub(L.sub(lines, row), L.const(1)), L.sub(L.sub(cols, col), L.const(1))):
            if not st.add_ge(l):
                return None
        ix = L.add(L.mul(row, cols), col)
        v = ('st', (('i', ix, v[1][0][2]), v[1][1]))
        pl.i0 = ix
        box['pos'] = (row, col)
        F = lambda k: pl.elem_read(E, st, run.cell, (('f', k, fields[k]),), ix, pl.cty)
        box['front'], box['back'] = F(pl.fix), F(pl.bix)
        pl.set(st, 'at', 0)
        st.setg('teq', ('b', pl.texteq(box['front'][1][pl.tix][3], box['back'][1][pl.tix][3])))   # (kept for the end)
        w = pl.width(E, st, box['front'][1][pl.tix])
        box['w'] = w
        if not st.add_ge(L.sub(L.mul(lines, cols), L.add(ix, w))):
            return None
        v = ('st', (v[1][0], ('i', L.add(ix, w), v[1][1][2])))
        E.put(st, args[rng[0]][1], args[rng[0]][2], v, None)
        return st
    try:
        r = Run(ctx, P, b, good, plugin=Scan, assume=assume)
    except Stray as e:
        # (there is an index for each column of the first character only)
        ctx.violate('skip-overlapped', nm, 'examines a column overlapped by a wide character as a cell of its own', loc=e.args[0])
        return
    E, pl = r.E, r.pl
    ctx.engine(E)
    for why, l in pl.faults:
        ctx.violate('scan', nm, why, loc=l)
    ends = {'Some': 0, 'None': 0}
    row, col = box['pos']
    ix = L.add(L.mul(row, r.dims[1]), col)
    inner = None
    for s, v in r.out:
        if v[0] == 'sym':
            v = E.expand(v)
        for name, k, s2 in E.split_variant(s.copy(), v):
            ends[name] += 1
            here = lambda cond, rule, what: ctx.oblige(cond, rule, nm, what, loc=b.loc)
            rng = E.deref(s2, r.args[box['rng']])
            here(rng[0] == 'st' and s2.ent_eq(L.sub(L.add(ix, box['w']), E.to_lin(s2, rng[1][0], rng[1][0][2] if rng[1][0][0] == 'i' else None))),
                 'skip-overlapped', 'may not go on at the column after the character')
            here(s2.ent_eq(L.sub(L.add(s2.g('invn')[1], L.const(1)), box['w'])), 'overlapped-unknown',
                 'may not record as unknown every column overlapped by a wide character')
            if name == 'None':
                here(s2.ent_eq(s2.g('bwn')[1]), 'recorded-is-handed-out', 'may record a cell as shown without handing it out')
                for f, n in same_cell(pl, E, s2, box['front'], box['back']):
                    here(n == 1 or E.assume(s2.copy(), B.lnot(n)) is None, 'changed-is-handed-out', 'may pass over a cell whose %s has changed' % f)
                continue
            x = E.payload(v, k, 0)
            if x[0] == 'sym':
                x = E.expand(x)
            tys = E.T[E.T[r.ret]['args'][0]]['e']
            for i, ty in enumerate(tys):
                p = E.T[ty].get('path')
                y = x[1][i]
                if p == 'terminal::Cursor':
                    if y[0] == 'sym':
                        y = E.expand(y)
                    fs = E.T[ty]['variants'][0]['fields']
                    order = [f[0] for f in fs]
                    l, c = (E.to_lin(s2, y[1][order.index(n)], fs[order.index(n)][1]) for n in ('line', 'column'))
                    here(s2.ent_eq(L.sub(l, row)) and s2.ent_eq(L.sub(c, col)) or
                         s2.ent_eq(L.sub(L.add(L.mul(l, r.dims[1]), c), ix)) and s2.ent_ge(L.sub(L.sub(r.dims[1], c), L.const(1))),
                         'position', 'hands out a position that may not be that of the cell')
                elif ty == pl.cty:
                    for f, n in same_cell(pl, E, s2, y, box['front']):
                        here(n == 1 or E.assume(s2.copy(), B.lnot(n)) is None, 'handed-out-is-drawn', 'hands out a cell whose %s may not be the drawn one' % f)
            here(s2.ent_eq(L.sub(s2.g('bwn')[1], L.const(1))) and s2.ent_eq(L.sub(s2.g('bwix')[1], ix)), 'recorded', 'may not record the cell handed out as shown')
            for f, n in same_cell(pl, E, s2, s2.g('bwval'), box['front']):
                here(n == 1 or E.assume(s2.copy(), B.lnot(n)) is None, 'recorded', 'records another %s than the one handed out' % f)
    for k, n in ends.items():
        if not n:
            ctx.violate('scan', nm, 'never returns %s for a cell' % k, loc=b.loc)
    return box


def is_range_arg(E, ty):
    t = E.T[ty]
    return t['k'] == 'ref' and E.T[t['e']].get('path') == 'std::ops::Range'


# ---------------------------------------------------------------- the refresh
INVALID = L.const(-2)
BLANK = L.const(-3)


class Contents(Cells):
    """Arrays filled with cells that no drawn cell equals (empty text), or with
    plain blanks."""

    def proper_tag(self, tag):
        return tag not in (INVALID, BLANK) and Cells.proper_tag(self, tag)

    def seq(self, E, st, op, cell, path, kw):
        r = Cells.seq(self, E, st, op, cell, path, kw)
        e, old = kw.get('elem'), kw.get('old')
        if op not in ('from_elem', 'resize') or e is None or self.text_in(E, e) is None:
            return r
        if op == 'resize' and (old is None or not st.ent_eq(old[1])):
            return r
        if e[0] == 'sym':
            e = E.expand(e)
        x = self.text_in(E, e)
        base = (r or kw['new'])[:3]
        if st.ent_eq(x[1]):
            return base + (INVALID,)
        if x[3] is not None and len(x[3][1]) == 1 and not x[3][0]:
            t = L.SYM[x[3][1][0][0]][0]
            if isinstance(t, Tm_) and t.parts[0] == 'chartext' and t.parts[1] == L.const(32):
                for i, f in enumerate(E.T[self.cty]['variants'][0]['fields']):
                    if i != self.tix and not self.plain(E, st, e[1][i]):
                        return r
                return base + (BLANK,)
        return r

    def plain(self, E, st, v):
        if v[0] == 'sym':
            v = E.expand(v)
        if v[0] == 'en':
            return is_ok(E, v) == 'None'
        if v[0] == 'st':
            return all(self.plain(E, st, x) for x in v[1])
        if v[0] == 'bv':
            return all(n == 0 for n in v[1])
        if v[0] == 'i':
            return v[1] == L.const(0)
        return v == UNIT

    def join_tag(self, J, a, b):
        if a == b:
            return a
        if a in (INVALID, BLANK) or b in (INVALID, BLANK):
            return None
        return Cells.join_tag(self, J, a, b)


def classify_ops(ctx, P, back):
    """What each operation of the buffer does to the array of shown cells:
    'scan' | 'invalid' | 'blank' | 'keeps' | 'changes'."""
    scans = {b.id for b in scan_ops(P)}
    out = {}
    for b in operations(P):
        if b.id in scans:
            out[b.id] = 'scan'
            continue
        r = Run(ctx, P, b, {}, plugin=Contents)
        tags = set()
        bix = [i for i, n, _ in r.pl.vecs if n == back][0]
        for s, x in r.ends():
            v, size = x[back]
            full = v[0] == 'seq' and s.ent_eq(L.sub(v[1], L.mul(*size)))
            tags.add(v[3] if full else 'short')
        if not tags:
            out[b.id] = 'keeps'
        elif tags == {INVALID}:
            out[b.id] = 'invalid'
        elif tags == {BLANK}:
            out[b.id] = 'blank'
        elif r.cell is not None and bix not in r.pl.written and tags == {None} and \
                all(r.pl.fields(r.E, s, r.cell)[1][bix] == r.pl.fields(r.E, r.st0, r.cell)[1][bix] for s, _ in r.out):
            out[b.id] = 'keeps'
        else:
            out[b.id] = 'changes'
    return out


GUARD = 'sys::terminal::TerminalWriteGuard'


class Display(Cells):
    """The terminal as a ghost: cursor (dl, dc), attributes; the scan by contract.
    pend: a cell was handed out and is not written yet; scan: 'no' / 'on' / 'done';
    inv: no cell is recorded as shown; attrs: 'plain' / 'cell' / '?'."""
    names = ('pend', 'scan', 'inv', 'attrs', 'flushed', 'sync', 'cleared', 'wrote', 'origin')

    def __init__(self, ctx, P, cls):
        Cells.__init__(self, ctx, {})
        self.P, self.cls = P, cls
        self.scans = self.cells = self.moves = 0

    def start(self, E, st, **kw):
        d = dict(pend=False, scan='no', inv=False, attrs='?', flushed=True, sync='?', cleared=False, wrote=False, origin=None)
        d.update(kw)
        us = usize(E)
        for g in ('dl', 'dc', 'rs'):
            st.setg(g, ('i', L.const(0), us))
        self.unknown(E, st)
        self.forget(E, st)
        for n in self.names:
            self.set(st, n, d[n])

    def forget(self, E, st):
        us = usize(E)
        if self.get(st, 'pend'):     # (the width keeps what is known of the position)
            self.set(st, 'pend', False)
        else:
            for g in ('pl', 'pc', 'pw'):
                st.setg(g, ('i', L.const(0), us))
        st.setg('cell', ('st', tuple(E.mk(tm('nocell', i), f[1]) for i, f in enumerate(E.T[self.cty]['variants'][0]['fields']))))

    def unknown(self, E, st):
        for g in ('dl', 'dc'):
            st.setg(g, ('i', L.var(L.sym(fresh(g), 0, 2**63)), usize(E)))
        self.set(st, 'sync', '?')

    def at(self, st, l, c):
        us = st.g('dl')[2]
        st.setg('dl', ('i', l, us))
        st.setg('dc', ('i', c, us))

    def cursor(self, E, v, ty):
        if v[0] == 'sym':
            v = E.expand(v)
        fs = E.T[ty]['variants'][0]['fields']
        o = [f[0] for f in fs]
        return tuple(E.to_lin(None, v[1][o.index(n)], fs[o.index(n)][1]) for n in ('line', 'column'))

    def results(self, E, st, c):
        """(state for Ok, [(state, Err)])"""
        t = E.T[c.destty]
        unit = t['variants'][E.vix(c.destty, 'Ok')]['fields'][0][1]
        if E.T[unit]['k'] != 'tuple' or E.T[unit]['e']:
            return None, None
        bad = st.copy()
        self.unknown(E, bad)
        self.set(bad, 'attrs', '?')
        self.set(bad, 'sync', 'failed')
        e = t['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
        return [(bad, E.variant(c.destty, 'Err', (E.mk(fresh('err'), e),)))], E.variant(c.destty, 'Ok', (UNIT,))

    def call(self, E, st, c):
        b = E.P.bodies.get(c.callee.get('inst'))
        if b is not None and b.id in self.cls:
            k = self.cls[b.id]
            if k == 'scan':
                return self.next_cell(E, st, c, b)
            if k in ('invalid', 'changes', 'blank') and c.args and c.args[0][0] == 'ref':
                self.set(st, 'inv', k == 'invalid')
                E.put(st, c.args[0][1], c.args[0][2], E.mk(fresh('buffer'), self.bt), None)
                return [(st, UNIT)] if E.T[c.destty]['k'] == 'tuple' else None
        p = c.path.replace("::<'a>", '').replace("<'a>", '')
        if p.startswith(GUARD + '::') and E.T[c.destty].get('path') == 'std::result::Result':
            return self.device(E, st, c, p.rsplit('::', 1)[1])
        return Cells.call(self, E, st, c)

    def device(self, E, st, c, op):
        err, okv = self.results(E, st, c)
        if okv is None:
            return None
        ob = lambda cond, rule, what: self.ctx.oblige(cond, rule, where(E), what, loc=loc(E), path=frames(E))
        if op == 'flush':
            self.set(st, 'flushed', True)
            return err + [(st, okv)]
        self.set(st, 'flushed', False)
        if op == 'clear_screen':
            ob(self.get(st, 'inv') and not self.get(st, 'wrote'), 'clear-redraws', 'clears the terminal although cells are recorded as shown on it')
            self.at(st, L.const(0), L.const(0))
            self.set(st, 'sync', 'home')
            self.set(st, 'cleared', True)
        elif op == 'enter_screen':
            self.at(st, L.const(0), L.const(0))
            self.set(st, 'sync', 'home')
            self.set(st, 'cleared', True)
            self.set(st, 'attrs', '?')
        elif op == 'clear_attributes':
            self.set(st, 'attrs', 'plain')
        elif op == 'move_cursor':
            self.moves += 1
            l, cc = self.cursor(E, c.args[1], c.argtys[1])
            self.at(st, l, cc)
            self.set(st, 'sync', 'eq')
        elif op == 'set_attrs':
            ok = self.get(st, 'pend')
            cell = st.g('cell')
            fs = [i for i, f in enumerate(E.T[self.cty]['variants'][0]['fields']) if i != self.tix]
            if ok and len(fs) == len(c.args) - 1:
                for i, v, ty in zip(fs, c.args[1:], c.argtys[1:]):
                    n = E.equal(st, cell[1][i], v, ty) if E.T[self.cty]['variants'][0]['fields'][i][1] == ty else 0
                    ok = ok and (n == 1 or E.assume(st.copy(), B.lnot(n)) is None)
                self.set(st, 'attrs', 'cell' if ok else '?')
            else:
                self.set(st, 'attrs', '?')
        elif op == 'write_str':
            return err + self.put_text(E, st, c, okv, ob)
        else:
            self.unknown(E, st)
            self.set(st, 'attrs', '?')
        return err + [(st, okv)]

    def put_text(self, E, st, c, okv, ob):
        cell = st.g('cell')
        x = cell[1][self.tix]
        try:
            a = as_slice(E, st, c.args[1], c.argtys[1])
            v = E.getp(st, E.rcell(st, a[1]), a[2], None, a[1], ())
            whole = v[0] == 'seq' and st.ent_eq(a[3]) and st.ent_eq(L.sub(a[4], L.add(a[3], v[1])))
        except Exception:
            v, whole = ('?',), False
        pend = self.get(st, 'pend')
        ob(pend, 'written-once', 'writes text to the terminal other than that of a changed cell, once')
        if pend:
            ob(whole and v[3] is not None and v[3] == x[3], 'cell-text', 'writes a text that may not be that of the changed cell')
            ob(st.ent_eq(L.sub(st.g('dl')[1], st.g('pl')[1])) and st.ent_eq(L.sub(st.g('dc')[1], st.g('pc')[1])), 'cell-position',
               'may write a cell while the terminal\'s cursor is elsewhere')
            ob(self.get(st, 'attrs') == 'cell', 'cell-attributes', 'may write a cell with other attributes than its own')
        self.cells += 1
        self.set(st, 'wrote', True)
        lines, cols = self.dims[0]
        l, e = st.g('pl')[1], L.add(st.g('pc')[1], st.g('pw')[1])
        self.forget(E, st)
        out = []
        a = st.copy()
        if a.add_ge(L.sub(L.sub(cols, e), L.const(1))):
            self.at(a, l, e)
            self.set(a, 'sync', 'eq')
            out.append((a, okv))
        if st.add_ge(L.sub(e, cols)):
            self.unknown(E, st)
            self.set(st, 'sync', 'oob')
            out.append((st, okv))
        return out

    def at_head(self, E, st):
        if not self.get(st, 'pend'):
            self.set(st, 'origin', None)

    def next_cell(self, E, st, c, b):
        self.scans += 1
        ob = lambda cond, rule, what: self.ctx.oblige(cond, rule, where(E), what, loc=loc(E), path=frames(E))
        lines, cols = self.dims[0]
        us = usize(E)
        i = [k for k, t in enumerate(c.argtys) if is_range_arg(E, t)][0]
        rng = E.deref(st, c.args[i])
        if rng[0] == 'sym':
            rng = E.expand(rng)
        lo, hi = (E.to_lin(st, x, us) for x in rng[1])
        first = self.get(st, 'scan') != 'on'
        ob(not self.get(st, 'pend'), 'written-once', 'may go on to the next cell without having written the last one')
        ob(self.get(st, 'scan') != 'done', 'scan-once', 'scans the cells again')
        ob(st.ent_eq(L.sub(hi, L.mul(lines, cols))), 'scan-covers', 'may not scan all cells')
        ob(st.ent_eq(L.sub(lo, L.const(0) if first else st.g('rs')[1])), 'scan-covers',
           'may not scan from the first cell' if first else 'may not go on with the next cell')
        home = first and self.get(st, 'inv')
        self.forget(E, st)
        n = L.var(L.sym(fresh('next')))
        E.put(st, c.args[i][1], c.args[i][2], ('st', (('i', n, us), rng[1][1])), None)
        st.setg('rs', ('i', n, us))
        out = []
        none = E.variant(c.destty, 'None', ())
        self.set(st, 'origin', None)
        if home:
            for x in (lines, cols):
                s = st.copy()
                if s.add_eq(x):
                    self.set(s, 'scan', 'done')
                    out.append((s, none))
        else:
            s = st.copy()
            self.set(s, 'scan', 'done')
            out.append((s, none))
        s = st
        l, cc = (L.const(0), L.const(0)) if home else (L.var(L.sym(fresh('line'), 0, 65535)), L.var(L.sym(fresh('column'), 0, 65535)))
        if not (s.add_ge(L.sub(L.sub(lines, l), L.const(1))) and s.add_ge(L.sub(L.sub(cols, cc), L.const(1)))):
            return out
        oty = E.T[c.destty]['args'][0]
        parts = []
        for ty in E.T[oty]['e']:
            if ty == self.cty:
                t = tm('celltext', fresh('scanned'), L.const(0), L.add(L.mul(l, cols), cc), cols)
                v = E.expand(('sym', tm('cell', t), ty))
                fs = list(v[1])
                ln = E.lensym(tm('len', t))
                s.add_ge(L.add(ln, L.const(-1)))
                fs[self.tix] = ('seq', ln, GOOD, L.var(L.sym(t)))
                v = ('st', tuple(fs))
                s.setg('cell', v)
                s.setg('pw', ('i', self.cell_width(E, s, t), us))
                parts.append(v)
            elif E.T[ty].get('path') == 'terminal::Cursor':
                o = [f[0] for f in E.T[ty]['variants'][0]['fields']]
                parts.append(('st', tuple(('i', {'line': l, 'column': cc}[k], us) for k in o)))
            else:
                parts.append(E.mk(fresh('x'), ty))
        s.setg('pl', ('i', l, us))
        s.setg('pc', ('i', cc, us))
        # (states that handed out different cells are kept apart)
        self.set(s, 'origin', self.scans)
        self.set(s, 'pend', True)
        self.set(s, 'scan', 'on')
        out.append((s, E.variant(c.destty, 'Some', (('st', tuple(parts)),))))
        return out


def touches(P, b, wty, ixs):
    """Does a body write these fields of the screen's data?"""
    def hit(p):
        if not (isinstance(p, (list, tuple)) and len(p) == 3 and isinstance(p[0], int)):
            return False
        ty = b.locals[p[0]][0]
        for x in p[1]:
            if x == '*':
                ty = P.T[ty].get('e', ty)
            elif x[0] == 'f':
                if ty == wty and x[1] in ixs:
                    return True
                ty = x[2]
            else:
                return False
        return ty == wty and not p[1]
    for bl in b.blocks:
        for s in bl['s']:
            if s[0] == '=' and (hit(s[1]) or s[2][0] == 'ref' and s[2][1] == 'mut' and hit(s[2][2])):
                return True
    return False


def shared(body):
    return body.path.replace("::<'a>", '').replace("<'a>", '')


CASES = ('same', 'column', 'line', 'redraw', 'new')
PLACES = ('inside', 'line', 'column', 'empty')


def refreshes(ctx, P, cls):
    from .locks import Locks
    from .summ import Effects
    from ..models import mutex_data
    wty = next((i for i, t in enumerate(P.T) if t.get('path') == 'sys::screen::Writer' and t['k'] == 'struct'), None)
    if wty is None:
        raise Anchor('type sys::screen::Writer')
    E0 = Engine(P, [])
    fi, fty = field_of_type(E0, wty, lambda t: t['k'] == 'bool', 'redraw flag of the screen')
    ri, rty = field_of_type(E0, wty, lambda t: t.get('path') == 'terminal::Cursor', 'tracked cursor of the screen')
    bi, bty = field_of_type(E0, wty, lambda t: t.get('path') == 'buffer::ScreenBuffer', 'buffer of the screen')
    eff = Effects(P)
    mine = {b.id for b in P.bodies.values() if b.local and touches(P, b, wty, (fi, ri))}
    ctx.floor('functions changing the tracked state', len(mine), 3)
    dev = {b.id for b in P.bodies.values() if b.path.startswith(GUARD)}
    n = {}
    for b in sorted(P.bodies.values(), key=lambda b: b.path):
        if not (b.local and b.kind == 'fn' and b.vis == 'pub' and b.impl_self and str(b.impl_self).startswith('sys::screen::')):
            continue
        if not eff.reach(b.id) & mine:
            continue
        tys = [P.T[b.locals[i + 1][0]] for i in range(b.argc)]
        own = [P.T[t['e']].get('path') if t['k'] == 'ref' else None for t in tys[:1]]
        if own == ['sys::screen::ScreenWriteGuard']:
            k = 'refresh'
        elif own == ['sys::screen::ScreenReadGuard']:
            k = 'read'
        else:
            continue
        n[k] = n.get(k, 0) + 1
        for case in CASES:
            for place in PLACES if k == 'refresh' else ('any',):
                one_entry(ctx, P, cls, b, k, case, place, wty, fi, ri, rty, bi, bty)
    ctx.floor('operations that refresh', n.get('refresh', 0), 2)
    ctx.floor('operations that read', n.get('read', 0), 1)


def one_entry(ctx, P, cls, b, kind, case, place, wty, fi, ri, rty, bi, bty):
    from .locks import Locks
    from .c08 import Adopt, screen_mutex
    from ..models import mutex_data
    nm = shared(b).replace('sys::', '')
    lk = Adopt(ctx) if kind == 'read' else Locks(ctx)
    lk.only_ok = True
    lk.split = False
    pl = Display(ctx, P, cls)
    E = Engine(P, [lk, pl])
    if kind == 'read':
        E.coarse = True
    st, args, R = EN.entry(E, b)
    pl.prepare(E, st)
    lk.init(st)
    if kind == 'read':
        lk.set(st, 'done', '-')
        st.setg('size', UNIT)
        st.setg('facts', UNIT)
    us = usize(E)
    m = screen_mutex(E, R)
    d = mutex_data(E, m, wty)
    lines, cols = L.var(L.sym(tm('lines', 'scr'), 0, 65535)), L.var(L.sym(tm('columns', 'scr'), 0, 65535))
    pl.dims.append((lines, cols))
    pl.start(E, st, inv=case == 'redraw', attrs='?', sync={'same': 'eq', 'new': 'eq'}.get(case, case))
    w = E.mk(tm('screen'), wty)
    fs = list((E.expand(w) if w[0] == 'sym' else w)[1])
    fs[fi] = ('b', 1 if case == 'redraw' else 0)
    big = 2**64 - 1
    cur = lambda l, c: ('st', tuple(('i', {'line': l, 'column': c}[f[0]], us) for f in E.T[rty]['variants'][0]['fields']))
    rl, rc = L.var(L.sym(tm('real line'), 0, big)), L.var(L.sym(tm('real column'), 0, big))
    fs[ri] = cur(rl, rc)
    if case == 'new':
        pl.at(st, L.const(0), L.const(0))
        fs[ri] = cur(L.const(0), L.const(0))
    if case == 'same':
        pl.at(st, rl, rc)
    elif case == 'column':
        st.add_ge(L.sub(rc, cols))
    elif case == 'line':
        st.add_ge(L.sub(rl, lines))
    bu = fs[bi]
    bf = list((E.expand(bu) if bu[0] == 'sym' else bu)[1])
    order = [f[0] for f in E.T[pl.szty]['variants'][0]['fields']]
    bf[pl.six] = ('st', tuple(('i', {'lines': lines, 'columns': cols}[x], us) for x in order))
    ci, cty = field_of_type(E, bty, lambda t: t.get('path') == 'terminal::Cursor', 'cursor of the buffer')
    cl, cc = L.var(L.sym(tm('cursor line'), 0, big)), L.var(L.sym(tm('cursor column'), 0, big))
    bf[ci] = cur(cl, cc)
    one = lambda l: L.sub(l, L.const(1))
    sts = [st]
    if place == 'empty':
        sts = [x for x in (st.copy(), st.copy())]
        sts = [x for x, n in zip(sts, (lines, cols)) if x.add_eq(n)]
    elif place != 'any':
        for l in {'inside': (L.sub(one(lines), cl), L.sub(one(cols), cc)), 'line': (one(lines), one(cols), L.sub(cl, lines)),
                  'column': (one(lines), one(cols), L.sub(cc, cols))}[place]:
            st.add_ge(l)
    fs[bi] = ('st', tuple(bf))
    outs = []
    for x in sts:
        E.put(x, d[1], d[2], ('st', tuple(fs)), None)
        outs += E.run(b, args, x)
    ctx.engine(E)
    ret = E.T[b.locals[0][0]]
    here = lambda cond, rule, what: ctx.oblige(cond, rule, nm, what, loc=b.loc)
    for s0, v in outs:
        for k, s in (ret_split(E, s0, v) if v[0] == 'en' else [(None, s0)]):
            w = E.getp(s, E.rcell(s, d[1]), d[2], None, d[1], ())
            if w[0] == 'sym':
                w = E.expand(w)
            flag = w[1][fi]
            real = pl.cursor(E, w[1][ri], rty)
            on = E.assume(s.copy(), flag[1])
            if on is not None:
                here(pl.get(on, 'inv'), 'redraw-is-complete', 'may ask for a redraw while cells are recorded as shown')
            off = E.assume(s.copy(), B.lnot(flag[1]))
            if off is not None:
                here(pl.get(off, 'sync') != 'failed', 'failure-redraws', 'may go on as if the terminal\'s contents were known after a failure')
                inb = off.copy()
                if inb.add_ge(L.sub(L.sub(lines, real[0]), L.const(1))) and inb.add_ge(L.sub(L.sub(cols, real[1]), L.const(1))):
                    here(inb.ent_eq(L.sub(real[0], inb.g('dl')[1])) and inb.ent_eq(L.sub(real[1], inb.g('dc')[1])), 'cursor-tracked',
                         'may track another position than that of the terminal\'s cursor')
            if kind == 'read':
                if pl.cells or pl.moves:
                    here(False, 'reading-draws', 'draws')
                continue
            if k == 'Ok':
                here(on is None and pl.get(s, 'scan') == 'done', 'all-scanned', 'may report success without having displayed all changed cells')
                here(pl.get(s, 'attrs') == 'plain', 'attributes-left', 'may leave attributes in force')
                here(pl.get(s, 'flushed'), 'flushed', 'may report success before the output was sent')
                if case == 'redraw':
                    here(pl.get(s, 'cleared'), 'redraw-clears', 'may redraw without clearing the terminal first')
                at = lambda x, l, c: x.ent_eq(L.sub(x.g('dl')[1], l)) and x.ent_eq(L.sub(x.g('dc')[1], c))
                if place == 'inside':
                    here(at(s, cl, cc), 'cursor-shown', 'may leave the terminal\'s cursor elsewhere than the drawing cursor')
                elif place != 'empty':
                    here(at(s, L.sub(lines, L.const(1)), L.sub(cols, L.const(1))), 'cursor-shown',
                         'may not leave the terminal\'s cursor at the last position when the drawing cursor is out of bounds')
    if kind == 'refresh':
        ctx.oblige(pl.scans > 0, 'scans', nm, 'does not look for changed cells', loc=b.loc)
        ctx.cover('writes of cells examined', pl.cells)


class First(Display, Contents):
    pass


def constructors(ctx, P, cls, back):
    """A new screen: nothing recorded as shown but blanks, on a cleared terminal."""
    from .locks import Locks
    wty = next(i for i, t in enumerate(P.T) if t.get('path') == 'sys::screen::Writer' and t['k'] == 'struct')
    no = {k: v for k, v in cls.items() if v not in ('blank',)}
    E0 = Engine(P, [])
    fi = field_of_type(E0, wty, lambda t: t['k'] == 'bool', 'redraw flag of the screen')[0]
    ri, rty = field_of_type(E0, wty, lambda t: t.get('path') == 'terminal::Cursor', 'tracked cursor of the screen')
    bi = field_of_type(E0, wty, lambda t: t.get('path') == 'buffer::ScreenBuffer', 'buffer of the screen')[0]
    n = 0
    for b in sorted(P.bodies.values(), key=lambda b: b.path):
        if not (b.local and b.kind == 'fn' and b.path.startswith('sys::screen::Screen::')):
            continue
        t = P.T[b.locals[0][0]]
        if t.get('path') != 'std::result::Result' or P.T[t['args'][0]].get('path') != 'sys::screen::Screen':
            continue
        n += 1
        nm = shared(b).replace('sys::', '')
        lk = Locks(ctx)
        lk.split = False
        pl = First(ctx, P, no)
        E = Engine(P, [lk, pl])
        E.coarse = True
        st, args, R = EN.entry(E, b)
        pl.prepare(E, st)
        lk.init(st)
        pl.start(E, st)
        seen = 0
        for s, v in E.run(b, args, st):
            for k, s1 in ret_split(E, s, v):
                if k != 'Ok':
                    continue
                seen += 1
                here = lambda cond, rule, what: ctx.oblige(cond, rule, nm, what, loc=b.loc)
                x = E.payload(v, E.vix(b.locals[0][0], 'Ok'), 0)
                x = E.expand(x) if x[0] == 'sym' else x
                mu = [x[1][i] for i, f in enumerate(P.T[t['args'][0]]['variants'][0]['fields']) if P.T[f[1]].get('path') == 'std::sync::Mutex']
                if len(mu) != 1 or mu[0][0] != 'st':
                    raise Anchor('the data of a new screen')
                w = mu[0][1][0]
                w = E.expand(w) if w[0] == 'sym' else w
                bu = E.expand(w[1][bi]) if w[1][bi][0] == 'sym' else w[1][bi]
                arr = [bu[1][i] for i, nme, _ in pl.vecs if nme == back][0]
                tag = arr[3] if arr[0] == 'seq' else None
                off = E.assume(s1.copy(), B.lnot(w[1][fi][1]))
                on = E.assume(s1.copy(), w[1][fi][1])
                if on is not None:
                    here(tag == INVALID, 'new-screen', 'asks for a redraw while cells are recorded as shown')
                if off is not None:
                    real = pl.cursor(E, w[1][ri], rty)
                    here(tag == BLANK, 'new-screen', 'records cells other than blanks as shown on the cleared terminal')
                    here(pl.get(off, 'cleared') and pl.get(off, 'sync') in ('home', 'failed'), 'new-screen', 'does not leave the terminal cleared')
                    here(all(off.ent_eq(z) for z in real), 'new-screen', 'tracks another position than that of the cleared terminal\'s cursor')
        ctx.oblige(seen > 0, 'new-screen', nm, 'never returns a screen', loc=b.loc)
        ctx.engine(E)
    ctx.floor('constructors of screens', n, 1)


def run(ctx):
    P = ctx.P()
    good, runs, lost = fixpoint(ctx, P)
    from .c11 import front
    fr = front(P, runs)
    if len(fr) != 1:
        raise Anchor('the array of drawn cells')
    fr = list(fr)[0]
    ops = scan_ops(P)
    for b in ops:
        check_scan(ctx, P, b, good, fr)
    ctx.floor('scans', len(ops), 1)
    back = [n for n in good if n != fr]
    cls = classify_ops(ctx, P, back[0])
    ctx.notes.append('effect of the buffer operations on the record of shown cells: %s' % {P.bodies[k].path.rsplit('::', 1)[1]: v for k, v in sorted(cls.items())})
    for k, v in sorted(cls.items()):
        ctx.oblige(v != 'changes', 'record', P.bodies[k].path.replace('buffer::', ''), 'changes the record of what the terminal shows', loc=P.bodies[k].loc)
    refreshes(ctx, P, cls)
    constructors(ctx, P, cls, back[0])
