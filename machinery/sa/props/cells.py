"""The cell arrays of a screen buffer (C11, C12, C33).

A vector of cells carries, in the tag of its abstract value, the row width for
which its cells are known to be proper (0: any width; -1: their texts
are proper but they may extend beyond their row), or nothing.  A cell is
proper for a row width if its text is one visible character followed only by
combining marks and, where the character takes several columns, they all lie
in the cell's row.  The tag survives an element write only if the written cell
is proper at its position; a cell read from a proper vector has these facts.
A text (SmallString) is known to be proper if its capacity component is 1."""
from .locks import Typestate
from .common import *

GOOD = L.const(1)
ANY = L.const(0)
TEXT = L.const(-1)
WMAX = 3


def cell_ty(E):
    ty = EN.local_ty(E, 'buffer::Cell')
    if ty is None:
        raise Anchor('type buffer::Cell')
    return ty


def vecs_of_cells(E, cty):
    """Fields of ScreenBuffer that are vectors of cells -> [(index, name, type)]"""
    bt = EN.local_ty(E, 'buffer::ScreenBuffer')
    if bt is None:
        raise Anchor('type buffer::ScreenBuffer')
    l = [(i, f[0], f[1]) for i, f in enumerate(E.T[bt]['variants'][0]['fields'])
         if E.T[f[1]].get('path', '').endswith('vec::Vec') and E.T[f[1]]['args'][0] == cty]
    if not l:
        raise Anchor('cell arrays in buffer::ScreenBuffer')
    return bt, l


def size_of(E, v, ty):
    """(lines, columns) of a terminal::Size value."""
    if v[0] == 'sym':
        v = E.expand(v)
    fs = [f[0] for f in E.T[ty]['variants'][0]['fields']]
    return tuple(E.to_lin(None, v[1][fs.index(n)], E.T[ty]['variants'][0]['fields'][fs.index(n)][1]) for n in ('lines', 'columns'))


def column(l, cols):
    """l as a multiple of the symbol cols plus a remainder -> (row lin, remainder), or None."""
    if len(cols[1]) != 1 or cols[0] or cols[1][0][1] != 1:
        return None
    c = cols[1][0][0]
    row, rest = L.const(0), L.const(l[0])
    for s, k in l[1]:
        t = L.SYM[s][0]
        if isinstance(t, tuple) and t[0] == 'mul':
            if c not in t[1:]:
                return None
            o = t[2] if t[1] == c else t[1]
            row = L.add(row, L.scale(L.var(o), k))
        elif s == c:
            row = L.add(row, L.const(k))
        else:
            rest = L.add(rest, (0, ((s, k),)))
    return row, rest


class Cells(Typestate):
    names = ()

    def __init__(self, ctx, good):
        self.ctx, self.good = ctx, good
        self.panics = {}
        self.bad = []
        self.reads = self.writes = 0
        self.written = {}
        self.dims = []

    def prepare(self, E, st):
        self.cty = cell_ty(E)
        fs = E.T[self.cty]['variants'][0]['fields']
        self.tix, self.tty = field_of_type(E, self.cty, lambda t: t.get('path', '').endswith('SmallString'), 'text')
        self.bt, self.vecs = vecs_of_cells(E, self.cty)
        self.six, self.szty = field_of_type(E, self.bt, lambda t: t.get('path') == 'terminal::Size', 'size')
        st.setg('ver', ('i', L.var(L.sym(tm('ver', 0))), usize(E)))

    def is_cells(self, E, ty):
        t = E.T[ty]
        return t.get('path', '').endswith('vec::Vec') and t['args'][0] == self.cty

    # ---- entry
    def buffer(self, E, st, name, cell):
        """Give the screen buffer in `cell` the invariant."""
        from ..lin import mul
        us = usize(E)
        szty = EN.local_ty(E, 'terminal::Size')
        lines, cols = L.var(L.sym(tm('lines', name), 0, 65535)), L.var(L.sym(tm('columns', name), 0, 65535))
        self.dims.append((lines, cols))
        v = E.rcell(st, cell)
        if v[0] == 'sym':
            v = E.expand(v)
        fs = list(v[1])
        six, sty = field_of_type(E, self.bt, lambda t: t.get('path') == 'terminal::Size', 'size')
        self.six, self.szty = six, sty
        order = [f[0] for f in E.T[sty]['variants'][0]['fields']]
        fs[six] = ('st', tuple(('i', {'lines': lines, 'columns': cols}[n], us) for n in order))
        for i, n, ty in self.vecs:
            fs[i] = ('seq', mul(lines, cols), E.lensym(tm('cap', name, i)), (None, TEXT, cols)[self.good.get(n, 0)])
        E.put(st, cell, (), ('st', tuple(fs)), None)
        return lines, cols

    def fields(self, E, st, cell):
        v = E.rcell(st, cell)
        return E.expand(v) if v[0] == 'sym' else v

    def size(self, E, st, cell):
        return size_of(E, self.fields(E, st, cell)[1][self.six], self.szty)

    # ---- texts and cells
    def visible(self, E, st, ch, want=None):
        """(is ch known to be visible, its width as a term)"""
        ty = self.opt_usize(E)
        w = E.mk(tm('uwidth', ch), ty)
        k = E.vix(ty, 'Some')
        pl = E.payload(w, k, 0)
        n = B.lnot(E.en_is(w, k))
        if E.assume(st.copy(), n) is not None:
            return False, pl[1]
        return st.ent_ge(L.add(pl[1], L.const(-1))), pl[1]

    def opt_usize(self, E):
        return E.find_ty(lambda t: t.get('path') == 'std::option::Option' and t['s'].endswith('Option<usize>'))

    def width(self, E, st, text):
        """Width of the first character of a proper text, with what is known of it."""
        tag = text[3]
        if tag is not None and len(tag[1]) == 1 and not tag[0]:
            t = L.SYM[tag[1][0][0]][0]
            if isinstance(t, Tm_) and t.parts[0] == 'chartext':
                ch = t.parts[1]
                if ch == L.const(32):
                    return L.const(1)
                return self.visible(E, st, ch)[1]
            if isinstance(t, Tm_) and t.parts[0] == 'celltext':
                return self.cell_width(E, st, t)
        return None

    def cell_width(self, E, st, t):
        ix, cols = t.parts[3], t.parts[4]
        if cols == ANY:
            return L.const(1)
        w = L.var(L.sym(tm('cellwidth', t), 1, WMAX))
        if cols is not None and cols[1]:
            p = column(ix, cols)
            if p is not None and st.ent_ge(p[1]) and st.ent_ge(L.sub(L.sub(cols, p[1]), L.const(1))):
                st.add_ge(L.sub(L.sub(cols, p[1]), w))
        return w

    def char_of(self, E, st, s):
        v = E.getp(st, E.rcell(st, s[1]), s[2], None, s[1], ())
        if v[0] != 'seq' or v[3] is None or not st.ent_eq(s[3]) or len(v[3][1]) != 1 or v[3][0]:
            return None
        t = L.SYM[v[3][1][0][0]][0]
        ct = E.find_ty(lambda t: t['k'] == 'char')
        if isinstance(t, Tm_) and t.parts[0] == 'chartext':
            return ('i', t.parts[1], ct)
        if isinstance(t, Tm_) and t.parts[0] == 'celltext' and v[2] == GOOD:
            return ('i', E.isym(tm('char', t), ct), ct)
        return None

    def elem_read(self, E, st, cell, path, ix, ty):
        if ty != self.cty:
            return None
        self.reads += 1
        cont = E.getp(st, E.rcell(st, cell), path, None, cell, ())
        tag = cont[3] if cont[0] == 'seq' else None
        t = tm('celltext', tm('cont', cell, tuple(p[:2] for p in path)), st.g('ver')[1], ix, tag)
        v = E.expand(('sym', tm('cell', t), ty)) if E.T[ty]['k'] == 'struct' else None
        n = E.lensym(tm('len', t))
        if tag is not None:
            st.add_ge(L.add(n, L.const(-1)))
        fs = list(v[1])
        fs[self.tix] = ('seq', n, GOOD if tag is not None and self.proper_tag(tag) else None, L.var(L.sym(t)))
        return ('st', tuple(fs))

    def proper_tag(self, tag):
        if tag in (ANY, TEXT):
            return True
        if len(tag[1]) != 1 or tag[0]:
            return False
        t = L.SYM[tag[1][0][0]][0]
        return any(tag == c for _, c in self.dims)

    def join_tag(self, J, a, b):
        l = [ANY] + [c for _, c in self.dims] + [TEXT]
        if a in l and b in l:
            if ANY in (a, b) or TEXT in (a, b):
                return a if b == ANY else b if a == ANY else TEXT
            return b if J.s1.ent_eq(L.sub(a, b)) else a if J.s2.ent_eq(L.sub(a, b)) else TEXT

    def text_in(self, E, v):
        """The text of a cell value."""
        if v[0] == 'sym':
            v = E.expand(v)
        if v[0] != 'st':
            return None
        x = v[1][self.tix]
        return x if x[0] == 'seq' else None

    def proper(self, E, st, text, ix, tag):
        """Is a text proper at position ix of rows of width tag -> (bool, why not)"""
        if text is None or text[2] != GOOD:
            return False, 'a text not known to be one visible character with combining marks'
        if tag == TEXT:
            return True, None
        if ix is None or tag == ANY:
            w = self.width(E, st, text)
            if w is not None and st.ent_ge(L.sub(L.const(1), w)):
                return True, None
            if ix is None:
                return False, 'a possibly wide character in every cell'
            return False, 'a possibly wide character'
        w = self.width(E, st, text)
        p = column(ix, tag)
        if w is None:
            w = L.var(L.sym(fresh('w'), 1, WMAX))
        if st.ent_ge(L.sub(L.const(1), w)):
            return True, None
        if p is None:
            return False, 'a possibly wide character at an unknown column'
        if st.ent_ge(p[1]) and st.ent_ge(L.sub(L.sub(tag, p[1]), w)):
            return True, None
        return False, 'a wide character that may extend beyond the end of its line'

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        b = E.T[self.bt]
        cont = E.getp(st, E.rcell(st, cell), path, None, cell, ())
        f = rest[0] if rest else None
        if cont[0] != 'seq':
            return
        if f is None:
            if val[0] == 'sym' and val[2] != self.cty:
                return
            if val[0] not in ('st', 'sym') or (val[0] == 'st' and len(val[1]) != len(E.T[self.cty]['variants'][0]['fields'])):
                return
            text = self.text_in(E, val)
        elif f[0] == 'f' and f[1] == self.tix and f[2] == self.tty and len(rest) == 1:
            text = val if val[0] == 'seq' else None
        elif f[0] == 'f' and f[2] == self.tty:
            text = None
        else:
            return
        self.writes += 1
        if path and path[0][0] == 'f':
            self.written.setdefault(path[0][1], (where(E), loc(E), frames(E)))
        # (a vector without the property has nothing to lose)
        tag = cont[3]
        if tag is not None:
            want = tag
            if tag == ANY:
                # the row width is not fixed yet
                fit = [c for l, c in self.dims if cont[1] == L.mul(l, c)]
                for c in fit or [c for _, c in self.dims]:
                    if column(ix, c) is not None and self.proper(E, st, text, ix, c)[0]:
                        want = c
                        break
            ok, why = self.proper(E, st, text, ix, want)
            if ok and self.width(E, st, text) is not None and st.ent_ge(L.sub(L.const(1), self.width(E, st, text))):
                want = tag
            if not ok:
                self.bad.append((where(E), loc(E), why, frames(E)))
                want = TEXT if self.proper(E, st, text, ix, TEXT)[0] else None
            if want != tag:
                E.put(st, cell, path, ('seq', cont[1], cont[2], want), None)
        st.setg('ver', ('i', L.var(L.sym(fresh('ver'))), usize(E)))

    def seq(self, E, st, op, cell, path, kw):
        new, old = kw.get('new'), kw.get('old')
        if op == 'sspush':
            if old is not None and old[2] == GOOD and kw['call'].path.endswith('::push'):
                ch = E.to_lin(st, kw['elem'], kw['call'].argtys[1])
                if ch == L.const(32):
                    ok = False
                else:
                    n = B.var(('t', tm('combining', ch)))
                    ok = E.assume(st.copy(), B.lnot(n)) is None
                if ok:
                    return new[:2] + (GOOD,) + (old[3],)
                self.bad.append((where(E), loc(E), 'a character not known to be a combining mark appended', frames(E)))
            return None
        if op in ('fill', 'permute'):
            cont = E.getp(st, E.rcell(st, cell), tuple(path), None, cell, ())
            if cont[0] == 'seq' and len(path) == 1 and path[0][0] == 'f' and self.is_cells(E, path[0][2]):
                self.written.setdefault(path[0][1], (where(E), loc(E), frames(E)))
                self.writes += 1
                st.setg('ver', ('i', L.var(L.sym(fresh('ver'))), usize(E)))
                tag = cont[3]
                if tag is not None and op == 'permute':
                    tag = ANY if tag == ANY else TEXT
                elif tag is not None:
                    text = self.text_in(E, kw['elem'])
                    ok, why = (False, 'a cell of unknown contents') if text is None else self.proper(E, st, text, None, ANY)
                    if not ok:
                        self.bad.append((where(E), loc(E), why, frames(E)))
                        tag = TEXT if text is not None and self.proper(E, st, text, None, TEXT)[0] else None
                if tag != cont[3]:
                    E.put(st, cell, tuple(path), ('seq', cont[1], cont[2], tag), None)
            return None
        e = kw.get('elem')
        if op in ('from_elem', 'push', 'resize') and e is not None and self.text_in(E, e) is not None and \
                (op == 'from_elem' and self.is_cells(E, kw['call'].destty) or op != 'from_elem' and self.is_cells(E, E.T[kw['call'].argtys[0]]['e'])):
            st.setg('ver', ('i', L.var(L.sym(fresh('ver'))), usize(E)))
            ok, why = self.proper(E, st, self.text_in(E, e), None, ANY)
            if op != 'from_elem' and old is not None and old[1] != L.const(0) and (old[3] is None or not self.proper_tag(old[3])):
                ok = False
            if not ok:
                self.bad.append((where(E), loc(E), why, frames(E)))
                return new[:3] + (None,)
            return new[:3] + (old[3] if op != 'from_elem' and old is not None and old[1] != L.const(0) else ANY,)
        return None

    def call(self, E, st, c):
        if c.path == '<smallstr::SmallString<A> as std::convert::From<char>>::from':
            r = E.models[c.path](E, st, c)
            ch = E.to_lin(st, c.args[0], c.argtys[0])
            out = []
            for s, v in r:
                ok = ch == L.const(32) or self.visible(E, s, ch)[0]
                out.append((s, v[:2] + ((GOOD if ok else None),) + v[3:]))
            return out
        if c.path == '<char as unicode_width::UnicodeWidthChar>::width':
            ch = E.to_lin(st, c.args[0], c.argtys[0])
            if len(ch[1]) == 1 and not ch[0]:
                t = L.SYM[ch[1][0][0]][0]
                if isinstance(t, Tm_) and t.parts[0] == 'char' and isinstance(t.parts[1], Tm_) and t.parts[1].parts[0] == 'celltext':
                    return [(st, E.some(c.destty, ('i', self.cell_width(E, st, t.parts[1]), usize(E))))]
        return None

    def on_panic(self, E, st, kind, l, chain):
        w = [p for p, _ in chain]
        k = (where(E), kind, repr(l))
        self.panics.setdefault(k, (l, ['%s (%s)' % x for x in chain]))


from ..engine import Tm as Tm_


def operations(P):
    """Public operations of the screen buffer."""
    out = []
    for b in P.bodies.values():
        if b.local and b.kind == 'fn' and not b.generic and b.vis == 'pub' and b.path.startswith('buffer::ScreenBuffer::') and '{closure' not in b.path:
            out.append(b)
    return sorted(out, key=lambda b: b.path)


def level(E, st, v, size):
    """How much is known of the cells of an array value in rows of size[1]."""
    if v[0] != 'seq' or v[3] is None:
        return 0
    if v[3] == ANY or st.ent_eq(L.sub(v[3], size[1])):
        return 2
    return 1 if v[3] == TEXT else 0


def fixpoint(ctx, P):
    """Greatest levels of the cell arrays that every public operation keeps.
    -> (levels, {operation path: Run}, [(field, level lost, Run)])"""
    ops = operations(P)
    good, lost, runs = None, [], {}
    while True:
        runs = {}
        again = False
        for b in ops:
            r = Run(ctx, P, b, good or {})
            if good is None:
                good = {n: 2 for _, n, _ in r.pl.vecs}
                again = True
                r = Run(ctx, P, b, good)
            runs[b.path] = r
            for s, x in r.ends():
                for n, (v, size) in x.items():
                    k = level(r.E, s, v, size)
                    if k < good[n]:
                        lost.append((n, k, r))
                        good[n] = k
                        again = True
            if again:
                break
        if not again:
            return good, runs, lost


class Run:
    """One public operation of the screen buffer from any proper state.
    .out = [(state, return value)]"""

    def __init__(self, ctx, P, b, good, plugin=Cells, assume=None):
        pl = self.pl = plugin(ctx, good)
        E = self.E = Engine(P, [pl])
        self.b = b
        st, args, R = EN.entry(E, b)
        pl.prepare(E, st)
        self.cell = None
        us = usize(E)
        for i, a in enumerate(args):
            ty = b.locals[i + 1][0]
            t = E.T[ty]
            if t['k'] == 'ref' and E.T[t['e']].get('path') == 'buffer::ScreenBuffer':
                self.cell = a[1]
                self.dims = pl.buffer(E, st, 'self', a[1])
            elif t.get('path') == 'terminal::Size':
                lines, cols = L.var(L.sym(tm('lines', i), 0, 65535)), L.var(L.sym(tm('columns', i), 0, 65535))
                pl.dims.append((lines, cols))
                order = [f[0] for f in t['variants'][0]['fields']]
                args[i] = ('st', tuple(('i', {'lines': lines, 'columns': cols}[n], us) for n in order))
        for i, a in enumerate(args):
            t = E.T[b.locals[i + 1][0]]
            e = E.T[t['e']] if t['k'] == 'ref' else t
            if e.get('path') == 'std::ops::Range' and self.cell is not None:
                # indices, as handed out by the buffer
                v = ('st', (('i', E.isym(tm('ixstart'), us), us), ('i', E.isym(tm('ixend'), us), us)))
                if t['k'] == 'ref':
                    E.put(st, a[1], (), v, None)
                else:
                    args[i] = v
                st.add_ge(L.sub(L.mul(*self.dims), v[1][1][1]))
        self.st0 = st
        if assume is not None:
            st = assume(self, st, args)
            if st is None:
                self.out, self.args, self.ret = [], args, b.locals[0][0]
                return
        self.out = E.run(b, args, st)
        self.args = args
        self.ret = b.locals[0][0]

    def ends(self):
        """[(state, {array: (value, (lines, columns))})] where the operation returns."""
        E, out = self.E, []
        for s, v in self.out:
            if self.cell is not None:
                f = self.pl.fields(E, s, self.cell)
            elif E.T[self.ret].get('path') == 'buffer::ScreenBuffer':
                f = E.expand(v) if v[0] == 'sym' else v
            else:
                continue
            size = size_of(E, f[1][self.pl.six], self.pl.szty)
            out.append((s, {n: (f[1][i], size) for i, n, _ in self.pl.vecs}))
        return out

    def option(self, s, v):
        """[(state, payload)] where a returned Option is Some."""
        E = self.E
        if v[0] == 'sym':
            v = E.expand(v)
        k = E.vix(self.ret, 'Some')
        return [(s2, E.payload(v, k, 0)) for n, i, s2 in E.split_variant(s.copy(), v) if i == k]
