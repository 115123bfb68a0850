"""C33: drawing changes the cells, the cursor and the attributes it says.

Drawing one character is interpreted for every kind of character (tab, carriage
return, newline, combining mark, visible of width 1, 2 and 3, anything else)
and every kind of position (room left, exactly filled, too little room, last
line, outside), with symbolic size, position, contents and attributes.  The
cells written are recorded and compared with the picture the kind asks for.
The operations that take text, place or style are interpreted with the drawing
of one character replaced by that statement."""
from .cells import *
from .c11 import front, visible_char
from ..models import split_ge, utf8len

LIM = 14
TAB, LF, CR, SP = 9, 10, 13, 32


class Bits:
    """Fields of the screen buffer and its cells by meaning."""

    def locate(self, E, P, front):
        T = E.T
        self.fix = next((i, ty) for i, n, ty in self.vecs if n == front)
        bf = T[self.bt]['variants'][0]['fields']
        cf = T[self.cty]['variants'][0]['fields']
        self.curix, self.curty = field_of_type(E, self.bt, lambda t: t.get('path') == 'terminal::Cursor', 'cursor')
        # attributes of a cell in the order in which they are handed out
        b = [x for x in P.bodies.values() if x.local and x.path == 'buffer::Cell::attrs']
        want = None
        if len(b) == 1:
            E2 = Engine(P, [])
            st, args, R = EN.entry(E2, b[0])
            v0 = E2.deref(st, args[0])
            v0 = E2.expand(v0) if v0[0] == 'sym' else v0
            out = E2.run(b[0], args, st)
            if len(out) == 1 and out[0][1][0] == 'st':
                l = [[i for i, x in enumerate(v0[1]) if x == y] for y in out[0][1][1]]
                if all(len(x) == 1 for x in l):
                    want = [x[0] for x in l]
        if want is None or len(want) != 3:
            raise Anchor('attributes of a cell')
        self.attr = []
        for name, i in zip(('fg', 'bg', 'style'), want):
            l = [j for j, f in enumerate(bf) if f[1] == cf[i][1]]
            if len(l) > 1:
                l = [j for j in l if bf[j][0] == cf[i][0]]
            if len(l) != 1:
                raise Anchor('attribute %s of the screen buffer' % name)
            self.attr.append((name, l[0], i, cf[i][1]))

    def cursor(self, E, st, cell):
        v = self.fields(E, st, cell)[1][self.curix]
        return pos_of(E, st, v, self.curty)

    def attrs(self, E, st, cell):
        f = self.fields(E, st, cell)[1]
        return [f[j] for _, j, _, _ in self.attr]


def pos_of(E, st, v, ty):
    """(line, column) of a cursor value."""
    if v[0] == 'sym':
        v = E.expand(v)
    fs = E.T[ty]['variants'][0]['fields']
    ix = [x[0] for x in fs]
    return tuple(E.to_lin(st, v[1][ix.index(n)], fs[ix.index(n)][1]) for n in ('line', 'column'))


def mkpos(E, ty, line, col):
    fs = [x[0] for x in E.T[ty]['variants'][0]['fields']]
    us = usize(E)
    return ('st', tuple(('i', {'line': line, 'column': col}[n], us) for n in fs))


def same(E, st, a, b, ty):
    """Are two values known to be equal?"""
    if a == b:
        return True
    t = E.T[ty]
    if t['k'] == 'struct':
        a, b = (E.expand(x) if x[0] == 'sym' else x for x in (a, b))
        if a[0] != 'st' or b[0] != 'st':
            return False
        return all(same(E, st, x, y, f[1]) for x, y, f in zip(a[1], b[1], t['variants'][0]['fields']))
    n = E.equal(st, a, b, ty)
    return n == 1 or E.assume(st.copy(), B.lnot(n)) is None


def drawing(P, b):
    """Does a function draw one character at the cursor?"""
    if not b.local or b.generic or b.kind != 'fn' or b.argc != 2:
        return False
    t = [P.T[b.locals[i][0]] for i in (1, 2)]
    return t[0]['k'] == 'ref' and P.T[t[0]['e']].get('path') == 'buffer::ScreenBuffer' and t[1]['k'] == 'char' and P.T[b.locals[0][0]].get('path') == 'std::result::Result'


class Base(Cells, Bits):
    front = None

    def prepare(self, E, st):
        Cells.prepare(self, E, st)
        self.locate(E, self.P, self.front)
        for n in ('iters',):
            self.set(st, n, 0)

    def at_head(self, E, st):
        n = self.get(st, 'iters')
        if n < LIM:
            self.set(st, 'iters', n + 1)

    def keep(self, E, st, n, l):
        st.setg(n, ('i', l, usize(E)))

    def mine(self, cell, path):
        return cell == self.cell and path and path[0][0] == 'f' and path[0][1] == self.fix[0]

    def result(self, E, ty, name):
        i = E.vix(ty, name)
        fs = E.T[ty]['variants'][i]['fields']
        return E.variant(ty, name, tuple(UNIT if E.T[f[1]]['s'] == '()' else E.mk(fresh('r'), f[1]) for f in fs))


class Draw(Base):
    """Records the cells written."""
    names = ('iters', 'tr')

    def prepare(self, E, st):
        Base.prepare(self, E, st)
        self.set(st, 'tr', ())

    def record(self, st, e):
        tr = list(self.get(st, 'tr'))
        ix, d = e
        for i, (jx, f) in enumerate(tr):
            if jx == ix and ix is not None:
                f = dict(f)
                f.update(d)
                tr[i] = (ix, tuple(sorted(f.items())))
                break
        else:
            tr.append((ix, tuple(sorted(d.items()))))
        self.set(st, 'tr', tuple(tr))

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        Cells.elem_write(self, E, st, cell, path, ix, rest, val, ty)
        if not self.mine(cell, path) or len(path) != 1:
            return
        if not rest:
            v = E.expand(val) if val[0] == 'sym' and val[2] == self.cty else val
            d = dict(enumerate(v[1])) if v[0] == 'st' else {-1: val}
        elif len(rest) == 1 and rest[0][0] == 'f':
            i = rest[0][1]
            if i == self.tix and val[0] == 'seq' and self.own_text(val, ix):
                return
            d = {i: val}
        else:
            d = {-1: val}
        self.record(st, (ix, d))

    def own_text(self, val, ix):
        if val[3] is not None and len(val[3][1]) == 1 and not val[3][0]:
            t = L.SYM[val[3][1][0][0]][0]
            return isinstance(t, Tm_) and t.parts[0] == 'celltext' and t.parts[3] == ix
        return False

    def seq(self, E, st, op, cell, path, kw):
        if op == 'sspush' and self.mine(cell, path) and len(path) > 1 and path[1][0] == 'ix':
            c = kw['call']
            ch = E.to_lin(st, kw['elem'], c.argtys[1]) if c.path.endswith('::push') else None
            self.record(st, (None, {0: ('push', path[1][1], ch)}))
        if op in ('fill', 'permute') and self.mine(cell, path):
            self.record(st, (L.var(L.sym(fresh('ix'))), {-1: TOP}))
        return Cells.seq(self, E, st, op, cell, path, kw)

    def call(self, E, st, c):
        b = E.P.bodies.get(c.callee.get('inst'))
        if b is not None and E.frames and drawing(self.P, b) and c.args[0][0] == 'ref' and c.args[0][1] == self.cell and \
                E.to_lin(st, c.args[1], c.argtys[1]) == L.const(SP):
            return self.space(E, st, c)
        return Cells.call(self, E, st, c)

    def space(self, E, st, c):
        """A nested drawing of one space."""
        out = []
        line, col = self.cursor(E, st, self.cell)
        lines, cols = self.size(E, st, self.cell)
        a, no = split_ge(E, st, L.sub(L.sub(lines, line), L.const(1)))
        if no is not None:
            out.append((no, self.result(E, c.destty, 'Err')))
        if a is None:
            return out
        a, no = split_ge(E, a, L.sub(L.sub(cols, col), L.const(1)))
        if no is not None:
            out.append((no, self.result(E, c.destty, 'Err')))
        if a is None:
            return out
        fs = [None] * len(E.T[self.cty]['variants'][0]['fields'])
        for (n, j, i, ty), v in zip(self.attr, self.attrs(E, a, self.cell)):
            fs[i] = v
        fs[self.tix] = ('seq', L.const(1), GOOD, L.var(L.sym(tm('chartext', L.const(SP)))))
        ix = L.add(L.mul(line, cols), col)
        p = (('f', self.fix[0], self.fix[1]),)
        Cells.elem_write(self, E, a, self.cell, p, ix, (), ('st', tuple(fs)), self.cty)
        self.record(a, (None, {0: ('covers', line, col)}))
        self.record(a, (ix, dict(enumerate(fs))))
        last, more = split_ge(E, a, L.sub(L.add(col, L.const(1)), cols))
        for s, pos in ((last, (L.add(line, L.const(1)), L.const(0))), (more, (line, L.add(col, L.const(1))))):
            if s is not None:
                E.put(s, self.cell, (('f', self.curix, self.curty),), mkpos(E, self.curty, *pos), self.curty)
                out.append((s, self.result(E, c.destty, 'Ok')))
        return out

    # ---- what was known of the cells at the start
    def note_widths(self, E, st, line, col, cols):
        """Keep the widths of the two cells before (line, col) of the initial picture."""
        self.wd = {}
        for k in (1, 2):
            if not st.ent_ge(L.sub(col, L.const(k))):
                continue
            c = L.sub(col, L.const(k))
            ix = L.add(L.mul(line, cols), c)
            p = (('f', self.fix[0], self.fix[1]), ('ix', ix, self.cty))
            v = E.getp(st, E.rcell(st, self.cell), p, None, self.cell, ())
            w = self.width(E, st, self.text_in(E, v))
            if w is None:
                raise Anchor('width of a cell')
            self.wd[k] = w
            self.keep(E, st, 'w%d' % k, w)
            if st.ent_eq(c):
                # the same cell, named by its column
                p = (p[0], ('ix', L.mul(line, cols), self.cty))
                w2 = self.width(E, st, self.text_in(E, E.getp(st, E.rcell(st, self.cell), p, None, self.cell, ())))
                st.add_eq(L.sub(w, w2))
                self.keep(E, st, 'v%d' % k, w2)


def drawn(pl, E, s, fields, ch, attrs):
    """Does a recorded cell hold exactly `ch` with these attributes?"""
    d = dict(fields)
    t = d.get(pl.tix)
    if t is None or t[0] != 'seq' or t[3] is None or len(t[3][1]) != 1 or t[3][0]:
        return 'text'
    x = L.SYM[t[3][1][0][0]][0]
    if not (isinstance(x, Tm_) and x.parts[0] == 'chartext' and (x.parts[1] == ch or s.ent_eq(L.sub(x.parts[1], ch)))) or \
            not (s.ent_eq(L.sub(t[1], utf8len(E, s, x.parts[1])))):
        return 'text'
    for (n, j, i, ty), v in zip(pl.attr, attrs):
        if i not in d or not same(E, s, d[i], v, ty):
            return {'fg': 'foreground', 'bg': 'background', 'style': 'style'}[n]
    return None


class Case:
    """One kind of character and position.
    want: list of (line, column, char) drawn; wrong: how a result may not end;
    cur: the cursor afterwards (or None: any); base: the first cell drawn."""

    def __init__(self, name, ch, w, setup):
        self.name, self.ch, self.w, self.setup = name, ch, w, setup
        self.want, self.end, self.cur, self.base, self.push = [], 'Ok', None, None, None
        self.some = False


def cases():
    """Every kind of character and position -> [Case]; setup(case, line, col, lines, cols, st, ch) -> bool"""
    one = L.const(1)
    out = []

    def room(st, line, col, lines, cols):
        return st.add_ge(L.sub(L.sub(lines, line), one)) and st.add_ge(L.sub(L.sub(cols, col), one))

    for w in (1, 2, 3):
        W = L.const(w)

        def fits(c, st, line, col, lines, cols, ch, W=W, w=w, full=False):
            c.want = [(line, L.add(col, L.const(i)), ch if i == 0 else L.const(SP)) for i in range(w)]
            c.base = (line, col)
            left = L.sub(cols, L.add(col, W))
            c.cur = (L.add(line, one), L.const(0)) if full else (line, L.add(col, W))
            return room(st, line, col, lines, cols) and (st.add_eq(left) if full else st.add_ge(L.sub(left, one)))
        out.append(Case('a character of width %d with room to spare' % w, None, w, fits))
        out.append(Case('a character of width %d that fills the line' % w, None, w, lambda *a, f=fits: f(*a, full=True)))
        for r in range(1, w):
            def tight(c, st, line, col, lines, cols, ch, r=r, w=w, W=W, last=False, full=False):
                c.base = (line, col)
                c.want = [(line, L.add(col, L.const(i)), L.const(SP)) for i in range(r)]
                if last:
                    c.end, c.some = 'Err', True
                else:
                    nl = L.add(line, one)
                    c.want += [(nl, L.const(i), ch if i == 0 else L.const(SP)) for i in range(w)]
                    c.cur = (L.add(line, L.const(2)), L.const(0)) if full else (nl, W)
                if not (room(st, line, col, lines, cols) and st.add_eq(L.sub(L.sub(cols, col), L.const(r)))):
                    return False
                if not (st.add_eq(L.sub(cols, W)) if full else st.add_ge(L.sub(L.sub(cols, W), one))):
                    return False
                return st.add_eq(L.sub(L.add(line, one), lines)) if last else st.add_ge(L.sub(lines, L.add(line, L.const(2))))
            nm = 'a character of width %d where %d column%s left' % (w, r, ' is' if r == 1 else 's are')
            out.append(Case(nm, None, w, tight))
            out.append(Case(nm + ', as wide as the screen', None, w, lambda *a, f=tight: f(*a, full=True)))
            out.append(Case(nm + ' on the last line', None, w, lambda *a, f=tight: f(*a, last=True)))

        def wide(c, st, line, col, lines, cols, ch, W=W):
            c.end, c.cur = 'Err', (line, col)
            return room(st, line, col, lines, cols) and st.add_ge(L.sub(L.sub(W, cols), one))
        if w > 1:
            out.append(Case('a character of width %d wider than the screen' % w, None, w, wide))
        for k in (0, 1):
            def off(c, st, line, col, lines, cols, ch, k=k):
                c.end, c.cur = 'Err', (line, col)
                return st.add_ge(L.sub(col, cols) if k else L.sub(line, lines))
            out.append(Case('a character of width %d outside the screen' % w, None, w, off))

    def cr(c, st, line, col, lines, cols, ch):
        c.cur = (line, L.const(0))
        return True
    out.append(Case('a carriage return', CR, None, cr))

    def lf(c, st, line, col, lines, cols, ch):
        c.cur = (L.add(line, one), L.const(0))
        return st.add_ge(L.sub(L.const(MAXI - 1), line))
    out.append(Case('a newline', LF, None, lf))

    def other(c, st, line, col, lines, cols, ch):
        c.cur = (line, col)
        return True
    out.append(Case('a character that is neither visible nor a combining mark', None, 0, other))

    for r in range(8):
        for short in range(0, 8 - r):
            def tab(c, st, line, col, lines, cols, ch, r=r, short=short):
                n = short or 8 - r
                q = L.var(L.sym(tm('tabstops', r), 0, 1 << 40))
                c.base = (line, col)
                c.want = [(line, L.add(col, L.const(i)), L.const(SP)) for i in range(n)]
                left = L.sub(cols, L.add(col, L.const(n)))
                if not room(st, line, col, lines, cols):
                    return False
                if short:
                    c.cur = (L.add(line, one), L.const(0))
                    return st.add_eq(left)
                c.cur = (line, L.add(col, L.const(n)))
                return st.add_ge(L.sub(left, one))
            c = Case('a tab %d columns after a tab stop%s' % (r, ', %d before the end of the line' % short if short else ''), TAB, None, tab)
            c.tab = r
            out.append(c)
        def tabfull(c, st, line, col, lines, cols, ch, r=r):
            n = 8 - r
            c.base = (line, col)
            c.want = [(line, L.add(col, L.const(i)), L.const(SP)) for i in range(n)]
            c.cur = (L.add(line, one), L.const(0))
            return room(st, line, col, lines, cols) and st.add_eq(L.sub(cols, L.add(col, L.const(n))))
        c = Case('a tab %d columns after a tab stop that fills the line' % r, TAB, None, tabfull)
        c.tab = r
        out.append(c)
    for k in (0, 1):
        def taboff(c, st, line, col, lines, cols, ch, k=k):
            c.end, c.cur = 'Err', (line, col)
            return st.add_ge(L.sub(col, cols) if k else L.sub(line, lines))
        out.append(Case('a tab outside the screen', TAB, None, taboff))

    def mark(c, st, line, col, lines, cols, ch, k=0):
        c.cur = (line, col)
        c.push = True
        c.base = None
        if k == 0:
            c.prev = (line, L.sub(col, one))
            return st.add_ge(L.sub(col, one)) and st.add_ge(L.sub(L.sub(lines, line), one)) and st.add_ge(L.sub(cols, col))
        c.prev = (L.sub(line, one), L.sub(cols, one))
        return st.add_eq(col) and st.add_ge(L.sub(line, one)) and st.add_ge(L.sub(lines, line)) and st.add_ge(L.sub(cols, one))
    out.append(Case('a combining mark after a character of its line', None, 'mark', mark))
    out.append(Case('a combining mark after a full line', None, 'mark', lambda *a: mark(*a, k=1)))

    def first(c, st, line, col, lines, cols, ch):
        c.cur = (line, col)
        return st.add_eq(line) and st.add_eq(col)
    out.append(Case('a combining mark at the start of the screen', None, 'mark', first))
    return out


def one_char(ctx, P, b, good, front, case):
    """Interpret drawing one character in one case."""
    class Here(Draw):
        pass
    Here.P, Here.front = P, front
    info = {}

    def assume(run, st, args):
        E, pl = run.E, run.pl
        pl.cell = run.cell
        lines, cols = run.dims
        us = usize(E)
        line, col = pl.cursor(E, st, run.cell)
        r = getattr(case, 'tab', None)
        if r is not None:
            q = L.var(L.sym(tm('tabstops', run.b.path), 0, 1 << 40))
            col = L.add(L.scale(q, 8), L.const(r))
            E.put(st, run.cell, (('f', pl.curix, pl.curty),), mkpos(E, pl.curty, line, col), pl.curty)
        i = next(i for i in range(1, b.argc + 1) if P.T[b.locals[i][0]]['k'] == 'char') - 1
        ct = b.locals[i + 1][0]
        if case.ch is not None:
            args[i] = ('i', L.const(case.ch), ct)
        ch = E.to_lin(st, args[i], ct)
        if case.w is not None:
            comb = B.var(('t', tm('combining', ch)))
            ty = pl.opt_usize(E)
            uw = E.mk(tm('uwidth', ch), ty)
            k = E.vix(ty, 'Some')
            p = E.payload(uw, k, 0)[1]
            st.setg('ch', ('i', ch, ct))
            st.setg('uw', uw)
            st.setg('comb', ('b', comb))
            if not st.add_ge(L.sub(ch, L.const(33))):
                return None
            if case.w == 'mark':
                st = E.assume(st, comb)
            elif case.w == 0:
                st = E.assume(st, B.lnot(comb))
                if st is not None:
                    st = E.assume(st, B.lor(B.lnot(E.en_is(uw, k)), E.eq_node(st, p)))
            else:
                st = E.assume(st, B.land(E.en_is(uw, k), B.lnot(comb)))
                if st is None or not st.add_eq(L.sub(p, L.const(case.w))):
                    return None
            if st is None:
                return None
        if not case.setup(case, st, line, col, lines, cols, ch):
            return None
        for n, l in (('line0', line), ('col0', col), ('lines0', lines), ('cols0', cols)):
            pl.keep(E, st, n, l)
        at = case.prev if case.push else case.base
        return [(st, line, col, lines, cols, ch, at)]

    def go(run, st, args):
        r = assume(run, st, args)
        if r is None:
            return None
        st, line, col, lines, cols, ch, at = r[0]
        E, pl = run.E, run.pl
        pl.base_col = None
        sts = [st]
        if at is not None:
            # the first columns apart: fewer cells can reach into this one
            lim = info.get('start')
            if lim is not None:
                if lim == 2:
                    if not st.add_ge(L.sub(at[1], L.const(2))):
                        return None
                elif not st.add_eq(L.sub(at[1], L.const(lim))):
                    return None
            pl.note_widths(E, st, at[0], at[1], cols)
        info['attrs'] = pl.attrs(E, st, run.cell)
        info['ch'] = ch
        info['cap'] = pl.fields(E, st, run.cell)[1][pl.fix[0]][2]
        info['at'] = at
        info['go'] = True
        return st

    runs = []
    for start in (0, 1, 2):
        info['start'] = start
        info['go'] = False
        r = Run(ctx, P, b, good, plugin=Here, assume=go)
        if info['go']:
            runs.append((r, dict(info)))
        if 'at' in info and info['at'] is None:
            break
    return runs


def overlap(pl, s, at, k):
    """Is the cell k columns before `at` known (True) to reach `at`, or known not to (False)?"""
    w = pl.wd.get(k)
    if w is None:
        return False
    if s.ent_ge(L.sub(L.const(k), w)):
        return False
    if s.ent_ge(L.sub(w, L.const(k + 1))):
        return True
    return None


def judge(ctx, P, b, case, run, info):
    E, pl = run.E, run.pl
    nm = b.path.replace('buffer::', '')
    cols = run.dims[1]

    def bad(rule, what):
        ctx.violate(rule, nm, '%s, %s' % (case.name, what), loc=b.loc, entry=nm)

    if not run.out:
        bad('result', 'never returns')
    for s, v in run.out:
        ok = {n for n, i, s2 in E.split_variant(s.copy(), E.expand(v) if v[0] == 'sym' else v)}
        ctx.ok('result')
        if ok != {case.end}:
            bad('result', 'may %s' % ('be refused' if case.end == 'Ok' else 'be reported as drawn'))
            continue
        f = pl.fields(E, s, run.cell)
        arr = f[1][pl.fix[0]]
        if arr[0] != 'seq' or arr[2] != info['cap']:
            bad('cells', 'replaces all cells')
            continue
        for (n, j, i, ty), x, y in zip(pl.attr, info['attrs'], pl.attrs(E, s, run.cell)):
            ctx.ok('attributes-kept')
            if not same(E, s, x, y, ty):
                bad('attributes-kept', 'changes the %s for what is drawn later' % n)
        if case.cur is not None:
            l, c = pl.cursor(E, s, run.cell)
            ctx.ok('cursor')
            if not (s.ent_eq(L.sub(l, case.cur[0])) and s.ent_eq(L.sub(c, case.cur[1]))):
                bad('cursor', 'may leave the cursor in the wrong place')
        tr = pl.get(s, 'tr')
        covered = [d[0][1] for ix, d in tr if ix is None and d[0][1][0] == 'covers']
        pushes = [d[0][1] for ix, d in tr if ix is None and d[0][1][0] == 'push']
        tr = [(ix, d) for ix, d in tr if ix is not None]
        rest = list(tr)
        at = info['at']
        # the picture
        for line, col, ch in case.want:
            ix = L.add(L.mul(line, cols), col)
            hit = [e for e in tr if s.ent_eq(L.sub(e[0], ix))]
            rest = [e for e in rest if e not in hit]
            if not hit:
                ctx.ok('cells')
                if not case.some:
                    bad('cells', 'leaves a cell as it was that it should fill')
                continue
            why = drawn(pl, E, s, hit[-1][1], ch, info['attrs'])
            ctx.ok('cells')
            if why:
                bad('cells', 'may draw the wrong %s' % why)
        gone = set()
        for ix, d in rest:
            k = [k for k in (1, 2) if at is not None and not case.push and s.ent_eq(L.sub(ix, L.add(L.mul(at[0], cols), L.sub(at[1], L.const(k)))))]
            ctx.ok('cells')
            if not k:
                bad('cells', 'may write a cell that it should leave alone')
                continue
            gone.add(k[0])
            if overlap(pl, s, at, k[0]) is not True:
                bad('cells', 'may erase a character that it does not overlap')
            t = dict(d).get(pl.tix)
            x = L.SYM[t[3][1][0][0]][0] if t is not None and t[0] == 'seq' and t[3] is not None and len(t[3][1]) == 1 else None
            if not (isinstance(x, Tm_) and x.parts[0] == 'chartext' and x.parts[1] == L.const(SP)):
                bad('cells', 'may leave text where it removed a character that it overlaps')
            elif not all(i in dict(d) and none_of(E, s, dict(d)[i], ty) for _, _, i, ty in pl.attr):
                bad('cells', 'may leave colour or style where it removed a character that it overlaps')
        if case.base is not None and case.want and not covered and tr:
            for k in (1, 2):
                if gone:
                    break
                if k in pl.wd:
                    ctx.ok('overlap')
                    if overlap(pl, s, at, k) is not False:
                        bad('overlap', 'may leave half of a wide character that it overwrites')
        # combining marks
        if not case.push:
            ctx.ok('combining')
            if pushes:
                bad('combining', 'adds to the text of a cell')
            continue
        ctx.ok('combining')
        if len(pushes) != 1 or pushes[0][2] is None or not s.ent_eq(L.sub(pushes[0][2], info['ch'])):
            bad('combining', 'does not add it to exactly one character')
            continue
        ix = pushes[0][1]
        base = L.mul(at[0], cols)
        k = [k for k in (0, 1, 2) if s.ent_eq(L.sub(ix, L.add(base, L.sub(at[1], L.const(k)))))]
        if not k:
            bad('combining', 'may add it to the wrong character')
        elif k[0] == 0:
            if any(overlap(pl, s, at, j) is not False for j in pl.wd):
                bad('combining', 'may add it to the hidden half of a wide character')
        elif overlap(pl, s, at, k[0]) is not True:
            bad('combining', 'may add it to an earlier character')


class Text(Base):
    """Operations that draw a text: the drawing of one character is replaced by
    its statement (each character is drawn at the cursor with the attributes in
    force, and moves the cursor)."""
    names = ('iters', 'pd', 'res', 'seen')
    track = None
    wanted = None

    def prepare(self, E, st):
        Base.prepare(self, E, st)
        self.set(st, 'pd', 0)
        self.set(st, 'res', 'Ok')
        self.set(st, 'seen', 0)
        us = usize(E)
        self.ct = E.find_ty(lambda t: t['k'] == 'char')
        st.setg('pend', ('i', L.const(0), self.ct))
        for n in ('rest', 'xl', 'xc'):
            st.setg(n, ('i', L.const(0), us))
        self.wrong = []
        self.calls = 0

    def at_head(self, E, st):
        if self.get(st, 'iters') < 2:
            self.set(st, 'iters', self.get(st, 'iters') + 1)

    def say(self, E, rule, what):
        self.wrong.append((rule, what, where(E), loc(E), frames(E)))

    def char_of(self, E, st, s):
        if self.track is None or s[1] != self.track:
            return Base.char_of(self, E, st, s)
        if not self.get(st, 'seen') and not st.ent_eq(s[3]):
            self.say(E, 'order', 'does not start with the first character of the text')
        if self.get(st, 'pd'):
            self.say(E, 'order', 'leaves out a character of the text')
        ch = L.var(L.sym(tm('char', fresh('ch')), 0, 0x10ffff))
        st.setg('pend', ('i', ch, self.ct))
        st.setg('rest', ('i', L.sub(s[4], utf8len(E, st, ch)), usize(E)))
        self.set(st, 'pd', 1)
        self.set(st, 'seen', 1)
        return ('i', ch, self.ct)

    def call(self, E, st, c):
        b = E.P.bodies.get(c.callee.get('inst')) if isinstance(c.callee, dict) else None
        if b is None or not E.frames or not drawing(E.P, b) or c.args[0][0] != 'ref' or c.args[0][1] != self.cell:
            return Base.call(self, E, st, c)
        self.calls += 1
        self.used.add(b.id)
        ch = E.to_lin(st, c.args[1], c.argtys[1])
        if self.get(st, 'res') != 'Ok':
            self.say(E, 'order', 'goes on after a character was refused')
        if not self.get(st, 'pd') or not st.ent_eq(L.sub(ch, st.g('pend')[1])):
            self.say(E, 'order', 'draws a character that is not the next one of the text')
        if self.place(E, st):
            self.say(E, 'place', 'draws in the wrong place')
        for (n, j, i, ty), x, y in zip(self.attr, self.wanted, self.attrs(E, st, self.cell)):
            if not same(E, st, x, y, ty):
                self.say(E, 'attributes', 'draws with the wrong %s' % n)
        us = usize(E)
        out = []
        for r in ('Ok', 'Err'):
            s = st.copy()
            l, k = (L.var(L.sym(fresh('cur'), 0, MAXI)) for _ in range(2))
            E.put(s, self.cell, (('f', self.curix, self.curty),), mkpos(E, self.curty, l, k), self.curty)
            self.keep(E, s, 'xl', l)
            self.keep(E, s, 'xc', k)
            s.setg('pend', ('i', L.const(0), self.ct))
            self.set(s, 'pd', 0)
            self.set(s, 'res', r)
            out.append((s, self.result(E, c.destty, r)))
        return out

    def place(self, E, st):
        l, k = self.cursor(E, st, self.cell)
        return not (st.ent_eq(L.sub(l, st.g('xl')[1])) and st.ent_eq(L.sub(k, st.g('xc')[1])))

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        Cells.elem_write(self, E, st, cell, path, ix, rest, val, ty)
        if self.mine(cell, path):
            self.say(E, 'order', 'writes a cell apart from the characters of the text')


def text_op(ctx, P, b, good, front, used):
    T = P.T
    nm = b.path.replace('buffer::', '')
    tys = [b.locals[i][0] for i in range(1, b.argc + 1)]
    pos = [i for i, t in enumerate(tys) if T[t].get('path') == 'terminal::Cursor']
    given = [i for i, t in enumerate(tys) if T[t].get('path') in ('terminal::Style', 'std::option::Option')]
    txt = [i for i, t in enumerate(tys) if T[t]['k'] == 'ref' and T[T[t]['e']]['k'] == 'str'][0]
    if given and len(given) != 3:
        raise Anchor('attributes given to ' + b.path)

    class Here(Text):
        pass
    Here.P, Here.front, Here.used = P, front, used
    n = 0
    for inside in ((None,) if not pos else (True, 'line', 'column')):
        def go(run, st, args):
            E, pl = run.E, run.pl
            pl.cell = run.cell
            pl.old = pl.attrs(E, st, run.cell)
            pl.wanted = [args[i] for i in given] if given else pl.old
            for i, v in enumerate(pl.old):
                st.setg('old%d' % i, v)
            line, col = at = pl.cursor(E, st, run.cell)
            if pos:
                at = pos_of(E, st, args[pos[0]], tys[pos[0]])
                d = [L.sub(L.sub(a, b), L.const(1)) for a, b in zip(run.dims, at)]
                for k, ax in enumerate(('line', 'column')):
                    if inside is True or inside != ax:
                        if inside is True and not st.add_ge(d[k]):
                            return None
                    elif not st.add_ge(L.add(L.scale(d[k], -1), L.const(-1))):
                        return None
            if inside not in (None, True):
                at = (line, col)
            pl.keep(E, st, 'xl', at[0])
            pl.keep(E, st, 'xc', at[1])
            a = args[txt]
            pl.track = a[1]
            st.setg('rest', ('i', a[4], usize(E)))
            return st
        r = Run(ctx, P, b, good, plugin=Here, assume=go)
        E, pl = r.E, r.pl
        ctx.engine(E)
        n += 1
        for rule, what, w, l, ch in pl.wrong:
            ctx.violate(rule, w, '%s %s' % (nm, what), loc=l, path=ch, entry=nm)
        ctx.ok('order')
        for s, v in r.out:
            ends = {x for x, i, s2 in E.split_variant(s.copy(), E.expand(v) if v[0] == 'sym' else v)}
            refused = inside not in (None, True)

            def bad(rule, what):
                ctx.violate(rule, nm, '%s %s' % (nm, what), loc=b.loc, entry=nm)
            ctx.ok('result')
            if ends != {'Err' if refused else pl.get(s, 'res')}:
                bad('result', 'may not report whether all of the text was drawn')
                continue
            ctx.ok('order')
            if pl.get(s, 'res') == 'Ok' and not refused and (pl.get(s, 'pd') or not s.ent_eq(s.g('rest')[1])):
                bad('order', 'may return before all of the text is drawn')
            ctx.ok('place')
            if pl.place(E, s):
                bad('place', 'may leave the cursor in the wrong place')
            if refused and pl.calls:
                bad('order', 'draws outside the screen')
            now = pl.attrs(E, s, r.cell)
            for (x, j, i, ty), old, v in zip(pl.attr, pl.old, now):
                ctx.ok('attributes')
                if not given:
                    ok = same(E, s, old, v, ty)
                elif refused:
                    ok = True
                else:
                    ok = none_of(E, s, v, ty)
                if not ok:
                    bad('attributes', 'may leave the wrong %s for what is drawn later' % x)
    return n


def none_of(E, s, v, ty):
    """Is an attribute known to be absent?"""
    t = E.T[ty]
    if t['k'] == 'enum':
        v = E.expand(v) if v[0] == 'sym' else v
        return {n for n, i, s2 in E.split_variant(s.copy(), v)} == {'None'}
    v = E.expand(v) if v[0] == 'sym' else v
    if v[0] == 'st':
        return all(none_of(E, s, x, f[1]) for x, f in zip(v[1], t['variants'][0]['fields']) if E.T[f[1]]['k'] in ('int', 'struct'))
    return all(b == 0 for b in E.to_bv(s, v, ty))


def bits(E, st, v, ty):
    """The bits of a Style value."""
    t = E.T[ty]
    if t['k'] == 'int':
        return list(E.to_bv(st, v, ty))
    v = E.expand(v) if v[0] == 'sym' else v
    l = [(x, f[1]) for x, f in zip(v[1], t['variants'][0]['fields']) if E.T[f[1]]['k'] in ('int', 'struct')]
    return [b for x, y in l for b in bits(E, st, x, y)]


class Setter(Base):
    names = ('iters',)

    def prepare(self, E, st):
        Base.prepare(self, E, st)
        self.touched = []

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        Cells.elem_write(self, E, st, cell, path, ix, rest, val, ty)
        if self.mine(cell, path):
            self.touched.append((where(E), loc(E), frames(E)))

    def seq(self, E, st, op, cell, path, kw):
        if op in ('fill', 'permute', 'sspush') and self.mine(cell, path):
            self.touched.append((where(E), loc(E), frames(E)))
        return Base.seq(self, E, st, op, cell, path, kw)


# name -> (line, column), (fg, bg, style) afterwards; None: as before
SETTERS = {
    'set_cursor': (lambda a: a['pos'], None),
    'next_line': (lambda a: (L.add(a['cur'][0], L.const(1)), a['n']), None),
    'set_fg': (None, lambda a: (a['opt'][0], None, None)),
    'set_bg': (None, lambda a: (None, a['opt'][0], None)),
    'set_style': (None, lambda a: (None, None, a['style'])),
    'add_style': (None, lambda a: (None, None, [B.lor(x, y) for x, y in zip(a['old'], a['style'])])),
    'remove_style': (None, lambda a: (None, None, [B.land(x, B.lnot(y)) for x, y in zip(a['old'], a['style'])])),
    'set_theme': (None, lambda a: (a['theme'][0], a['theme'][1], a['style'])),
    'clear_attributes': (None, lambda a: ('none', 'none', [0] * len(a['old']))),
    'invalidate': (None, None),
    'cursor': (None, None),
    'size': (None, None),
    'clear_screen': (None, None),
}


def setter(ctx, P, b, good, front):
    T = P.T
    nm = b.path.replace('buffer::', '')
    name = b.path.split('::')[-1]
    tys = [b.locals[i][0] for i in range(1, b.argc + 1)]

    class Here(Setter if name != 'clear_screen' else Clear):
        pass
    Here.P, Here.front = P, front
    a = {}

    def go(run, st, args):
        E, pl = run.E, run.pl
        pl.cell = run.cell
        E.bit_types = frozenset(i for i, t in enumerate(E.T) if t['s'] == 'u8')
        a['cur'] = pl.cursor(E, st, run.cell)
        if not st.add_ge(L.sub(L.const(MAXI - 1), a['cur'][0])):
            return None
        a['all'] = pl.attrs(E, st, run.cell)
        a['f'] = pl.fields(E, st, run.cell)
        sty = pl.attr[2][3]
        a['old'] = bits(E, st, a['all'][2], sty)
        a['opt'] = []
        for v, t in zip(args, tys):
            p = T[t].get('path')
            if p == 'terminal::Cursor':
                a['pos'] = pos_of(E, st, v, t)
            elif p == 'std::option::Option':
                a['opt'].append(v)
            elif p == 'terminal::Style':
                a['style'] = bits(E, st, v, t)
            elif p == 'terminal::Theme':
                x = E.expand(v) if v[0] == 'sym' else v
                fs = {f[0]: y for f, y in zip(T[t]['variants'][0]['fields'], x[1])}
                a['theme'] = (fs['fg'], fs['bg'])
                a['style'] = bits(E, st, fs['style'], sty)
            elif T[t]['k'] == 'int':
                a['n'] = E.to_lin(st, v, t)
        for n, l in (('line0', a['cur'][0]), ('col0', a['cur'][1])):
            pl.keep(E, st, n, l)
        return st
    r = Run(ctx, P, b, good, plugin=Here, assume=go)
    E, pl = r.E, r.pl
    ctx.engine(E)
    wc, wa = SETTERS[name]

    def bad(rule, what):
        ctx.violate(rule, nm, '%s %s' % (nm, what), loc=b.loc, entry=nm)
    if name != 'clear_screen':
        for w, l, ch in pl.touched[:1]:
            ctx.violate('cells', w, '%s writes a cell' % nm, loc=l, path=ch, entry=nm)
    for s, v in r.out:
        f = pl.fields(E, s, r.cell)
        cur = wc(a) if wc else a['cur']
        x = pl.cursor(E, s, r.cell)
        ctx.ok('cursor')
        if not all(s.ent_eq(L.sub(p, q)) for p, q in zip(cur, x)):
            bad('cursor', 'may leave the cursor in the wrong place')
        want = wa(a) if wa else (None, None, None)
        now = pl.attrs(E, s, r.cell)
        for (n, j, i, ty), w, old, y in zip(pl.attr, want, a['all'], now):
            ctx.ok('attributes')
            if n == 'style':
                k = a['old'] if w is None else w
                ok = all(p == q or E.assume(s.copy(), B.lnot(B.iff(p, q))) is None for p, q in zip(k, bits(E, s, y, ty)))
            elif w == 'none':
                ok = none_of(E, s, y, ty)
            else:
                ok = same(E, s, old if w is None else w, y, ty)
            if not ok:
                bad('attributes', 'may leave the wrong %s' % n)
        ctx.ok('size')
        sz = pl.size(E, s, r.cell)
        if not all(s.ent_eq(L.sub(p, q)) for p, q in zip(sz, r.dims)):
            bad('size', 'changes the size')
        if name == 'clear_screen':
            ctx.ok('cells')
            arr = f[1][pl.fix[0]]
            if pl.get(s, 'odd') or not (s.ent_eq(L.sub(s.g('next')[1], L.mul(*r.dims))) or pl.fresh_blank(s, arr, r.dims)):
                bad('cells', 'may not leave every cell blank and plain')
        else:
            ctx.ok('cells')
            if f[1][pl.fix[0]] != a['f'][1][pl.fix[0]]:
                bad('cells', 'replaces the cells')
        if name in ('cursor', 'size'):
            ctx.ok('result')
            q = pos_of(E, s, v, r.ret) if name == 'cursor' else size_of(E, v, r.ret)
            if not all(s.ent_eq(L.sub(m, n)) for m, n in zip(q, a['cur'] if name == 'cursor' else r.dims)):
                bad('result', 'returns something else')


class Clear(Base):
    """Cells made blank in order."""
    names = ('iters', 'odd')

    def prepare(self, E, st):
        Base.prepare(self, E, st)
        st.setg('next', ('i', L.const(0), usize(E)))
        self.set(st, 'odd', 0)
        self.blanks = {}

    def at_head(self, E, st):
        if self.get(st, 'iters') < 2:
            self.set(st, 'iters', self.get(st, 'iters') + 1)

    def blank(self, E, st, val):
        v = E.expand(val) if val[0] == 'sym' and val[2] == self.cty else val
        if v[0] != 'st' or len(v[1]) != len(E.T[self.cty]['variants'][0]['fields']):
            return False
        t = v[1][self.tix]
        x = L.SYM[t[3][1][0][0]][0] if t[0] == 'seq' and t[3] is not None and len(t[3][1]) == 1 else None
        return isinstance(x, Tm_) and x.parts[0] == 'chartext' and x.parts[1] == L.const(SP) and st.ent_eq(L.sub(t[1], L.const(1))) and \
            all(none_of(E, st, v[1][i], ty) for _, _, i, ty in self.attr)

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        Cells.elem_write(self, E, st, cell, path, ix, rest, val, ty)
        if not self.mine(cell, path):
            return
        if rest or not self.blank(E, st, val):
            self.set(st, 'odd', 1)
        elif st.ent_eq(L.sub(ix, st.g('next')[1])):
            self.keep(E, st, 'next', L.add(ix, L.const(1)))

    def seq(self, E, st, op, cell, path, kw):
        r = Base.seq(self, E, st, op, cell, path, kw)
        e = kw.get('elem')
        if op == 'fill' and self.mine(cell, path):
            d = kw['dst']
            if not self.blank(E, st, e):
                self.set(st, 'odd', 1)
            elif st.ent_eq(L.sub(d[3], st.g('next')[1])):
                self.keep(E, st, 'next', L.add(d[3], d[4]))
        if op == 'from_elem' and e is not None and self.is_cells(E, kw['call'].destty):
            v = r or kw['new']
            cap = E.lensym(tm('blankcap', fresh('c')))
            self.blanks[cap] = self.blank(E, st, e)
            return v[:2] + (cap,) + v[3:]
        return r

    def fresh_blank(self, s, arr, dims):
        return arr[0] == 'seq' and self.blanks.get(arr[2]) and s.ent_eq(L.sub(arr[1], L.mul(*dims)))


def run(ctx):
    P = ctx.P()
    good, runs, lost = fixpoint(ctx, P)
    fr = sorted(front(P, runs))
    if len(fr) != 1:
        raise Anchor('one array that drawing operations write to')
    fr = fr[0]
    used = set()
    m = k = 0
    for b in operations(P):
        tys = [P.T[b.locals[i][0]] for i in range(1, b.argc + 1)]
        if any(t['k'] == 'ref' and P.T[t['e']]['k'] == 'str' for t in tys):
            m += text_op(ctx, P, b, good, fr, used)
        elif b.path.split('::')[-1] in SETTERS:
            setter(ctx, P, b, good, fr)
            k += 1
    todo = [b for b in P.bodies.values() if b.id in used or (b in operations(P) and drawing(P, b))]
    n = 0
    for b in sorted(todo, key=lambda b: b.path):
        for case in cases():
            for r, info in one_char(ctx, P, b, good, fr, case):
                judge(ctx, P, b, case, r, info)
                ctx.engine(r.E)
                n += 1
    ctx.floor('drawing functions', len(todo), 1)
    ctx.floor('cases of drawing one character', n, 40)
    ctx.floor('cases of drawing text', m, 4)
    ctx.floor('operations on place and attributes', k, 8)
