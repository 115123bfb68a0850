"""Sequence maps.  The public operations (instantiated at String keys; the
source is generic) are interpreted with the vector of pairs opaque.  A binary
search yields, for the text searched, either the position of the equal key or
the insertion position; its closure is itself interpreted to check that it
projects the key.  Rules on every path: pairs are inserted only at the
insertion position of their own key in an unchanged vector, replaced only by a
pair with the searched key at the found position, and otherwise only values are
written; building from a vector sorts stably by key and then removes equal
neighbours; every pair taken from an iterator is inserted before the next; each
operation returns the element, or nothing, that its name says, and `find`
answers from the exact match and from the key right behind it."""
from .locks import Typestate
from .common import *

ID = 'C22'
ASREF = ('<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::ops::Deref>::deref',
         'std::string::String::as_str', '<std::string::String as std::borrow::Borrow<str>>::borrow')


class Undec(Anchor):
    pass


class Seq(Typestate):
    names = ('stage',)

    def __init__(self, ctx, name, kty, pty):
        self.ctx, self.name = ctx, name
        self.kty, self.pty = kty, pty
        self.counts = {}

    def n(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def key(self, st):
        s = st.g('S')
        f = (s[1][0], s[1][3]) if s[0] == 'st' else None
        return (st.g('stage'), f, st.g('pend')[0] == 'st', st.g('mut'), st.g('inc') == ('b', 0))

    def init(self, st):
        st.setg('S', ('g', 'none'))
        st.setg('inc', ('b', 0))
        st.setg('pend', ('g', 'none'))
        st.setg('stage', ('g', 'raw'))
        st.setg('mut', ('g', 0))

    def ob(self, cond, rule, what, l=None):
        self.ctx.oblige(cond, rule, where(self.E), what, loc=l or loc(self.E), entry=self.name, path=frames(self.E))

    # ---- texts
    def text(self, sl):
        return ('g', sl[1:]) if sl[0] == 'sl' else ('g', sl)

    def is_map(self, E, ty):
        t = E.T[ty]
        while t['k'] == 'ref':
            t = E.T[t['e']]
        if t.get('path', '').endswith('vec::Vec'):
            return t['args'][0] == self.pty
        return t['k'] == 'slice' and t['e'] == self.pty

    def elem(self, st, lin):
        """Element lin of the unmodified vector."""
        return self.E.mk(tm('elem', lin), self.pty)

    def text_of(self, E, st, a):
        """The text a reference to a String denotes."""
        if a[0] != 'ref':
            return None
        for i, p in enumerate(a[2]):
            if p[0] == 'ix':
                t = tm('text', 'elem', p[1])
                break
        else:
            v = E.getp(st, E.rcell(st, a[1]), a[2], None, a[1], ())
            if v[0] != 'sym':
                return None
            t = tm('text', 'key', v[1])
        return ('sl', ('D', t), (), L.const(0), E.lensym(tm('len', t)))

    def cmpval(self, E, kind, a, b, ty):
        return E.mk(tm(kind, a[1:], b[1:]), ty)

    def call(self, E, st, c):
        p = c.path
        if p in ASREF or c.gpath in ('std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::ops::Deref::deref') and E.T[c.argtys[0]].get('e') == self.kty:
            r = self.text_of(E, st, c.args[0])
            if r is not None:
                return [(st, r)]
        if p.endswith('<impl str>::starts_with') or p == 'std::str::<impl str>::starts_with':
            return self.starts(E, st, c)
        if c.gpath == 'std::cmp::Ord::cmp' and E.T[E.T[c.argtys[0]]['e']]['k'] == 'str':
            return [(st, self.cmpval(E, 'cmp', c.args[0], c.args[1], c.destty))]
        if c.gpath in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
            a, b = c.args
            for _ in range(3):
                if a[0] == 'ref' and b[0] == 'ref':
                    ta, tb = E.T[c.argtys[0]], None
                    va = E.getp(st, E.rcell(st, a[1]), a[2], None, a[1], ())
                    vb = E.getp(st, E.rcell(st, b[1]), b[2], None, b[1], ())
                    if va[0] in ('ref', 'sl') and vb[0] in ('ref', 'sl'):
                        a, b = va, vb
            if a[0] == 'ref' and b[0] == 'ref':
                x, y = self.text_of(E, st, a), self.text_of(E, st, b)
            else:
                x, y = a, b
            if x is not None and y is not None and x[0] == 'sl' and y[0] == 'sl':
                n = self.streq(x, y)
                return [(st, ('b', B.lnot(n) if c.gpath.endswith('ne') else n))]
        if 'binary_search' in p and 'slice' in p:
            return self.search(E, st, c)
        if '<impl [T]>::sort' in p or '::dedup' in p:
            return self.order(E, st, c)
        if p == 'std::vec::Vec::<T, A>::remove' and self.is_map(E, c.argtys[0]):
            v = E.get(st, c.args[0][1], c.args[0][2], None)
            at = E.to_lin(st, c.args[1], c.argtys[1])
            old = self.old(E, st, at)
            r = E.models[p](E, st, c)
            return [(s, old if old is not None else v) for s, v in r]
        if p.endswith('::next') and E.T[c.destty].get('path', '').endswith('option::Option') and E.T[c.destty]['args'][0] == self.pty:
            self.n('pull')
            out = [(st.copy(), E.variant(c.destty, 'None', ()))]
            self.ob(st.g('pend')[0] != 'st', 'pair-inserted', 'takes the next pair before inserting the previous one')
            s = st.copy()
            e = E.mk(fresh('pair'), self.pty)
            s.setg('pend', e)
            out.append((s, E.variant(c.destty, 'Some', (e,))))
            return out
        return None

    def streq(self, x, y):
        a, b = sorted((x[1:], y[1:]), key=str)
        return B.var(('t', tm('streq', a, b)))

    def old(self, E, st, lin):
        if st.g('mut') == ('g', 0):
            return self.elem(st, lin)
        return None

    def elem_read(self, E, st, cell, path, ix, ty):
        if ty == self.pty:
            return self.old(E, st, ix)
        return None

    # ---- searching
    def search(self, E, st, c):
        sl = c.args[0]
        seq = E.getp(st, E.rcell(st, sl[1]), sl[2], None, sl[1], ())
        if sl[0] != 'sl' or not self.is_map(E, c.argtys[0]):
            return None
        self.n('search')
        self.ob(seq[0] == 'seq' and st.ent_eq(sl[3]) and st.ent_eq(L.sub(sl[4], seq[1])), 'search-whole', 'searches only part of the vector', c.loc)
        j = E.lensym(fresh('j'))
        er = ('ref', sl[1], sl[2] + (('ix', j, self.pty),))
        want = ('D', tm('text', 'elem', j))
        f, fty = c.args[-1], c.argtys[-1]
        if c.path.endswith('binary_search_by_key'):
            k = c.args[1]
            v = E.getp(st, E.rcell(st, k[1]), k[2], None, k[1], ()) if k[0] == 'ref' else k
            rs = E.call_value(st.copy(), f, fty, [er], c.ctx)
            if rs is None:
                raise Undec('closure of the binary search')
            for s, r in rs:
                self.ob(r[0] == 'sl' and r[1] == want and s.ent_eq(r[3]), 'search-key', 'the search does not compare the key of each pair', c.loc)
        elif c.path.endswith('binary_search_by'):
            rs = E.call_value(st.copy(), f, fty, [er], c.ctx)
            if rs is None:
                raise Undec('closure of the binary search')
            v = None
            for s, r in rs:
                t = r[4] if r[0] == 'en' else None
                ok = t is not None and t.parts[0] == 'cmp' and t.parts[1][0] == want
                if ok:
                    v = ('sl',) + t.parts[2]
                self.ob(ok, 'search-key', 'the search does not order by the key of each pair', c.loc)
        else:
            raise Undec('search operation ' + c.path)
        if v is None or v[0] != 'sl':
            raise Undec('searched text')
        us = E.T[c.destty]['args'][0]
        o = self.S(st)
        if o is not None and o[3] == ('g', 'fresh') and o[2] == self.text(v):
            # the same question about an unchanged vector has the same answer
            return [(st, E.variant(c.destty, 'Ok' if o[0] == ('b', 1) else 'Err', (o[1],)))]
        n = E.lensym(fresh('pos'))
        a = st.copy()
        out = []
        if a.add_ge(L.sub(L.sub(sl[4], n), L.const(1))):
            a.setg('S', ('st', (('b', 1), ('i', n, us), self.text(v), ('g', 'fresh'), ('i', sl[4], us))))
            out.append((a, E.variant(c.destty, 'Ok', (('i', n, us),))))
        b = st.copy()
        if b.add_ge(L.sub(sl[4], n)):
            b.setg('S', ('st', (('b', 0), ('i', n, us), self.text(v), ('g', 'fresh'), ('i', sl[4], us))))
            out.append((b, E.variant(c.destty, 'Err', (('i', n, us),))))
        return out

    def S(self, st):
        s = st.g('S')
        return s[1] if s[0] == 'st' else None

    def starts(self, E, st, c):
        s = self.S(st)
        a, b = c.args
        if s is None or a[0] != 'sl' or b[0] != 'sl':
            return None
        self.n('starts')
        t = a[1][1] if a[1][0] == 'D' else None
        ok = t is not None and t.parts[:2] == ('text', 'elem') and st.ent_eq(a[3])
        off = 1 if s[0] == ('b', 1) else 0
        self.ob(ok and st.ent_eq(L.sub(t.parts[2], L.add(s[1][1], L.const(off)))), 'find-next', 'the key tested for more to come is not the one right behind the match', c.loc)
        self.ob(self.text(b) == s[2], 'find-prefix', 'tests for a text other than the searched one', c.loc)
        x = B.var(('t', tm('more', s[1][1])))
        st.setg('inc', ('b', x))
        return [(st, ('b', x))]

    # ---- sorting
    def order(self, E, st, c):
        self.n('order')
        stage = st.g('stage')[1]
        a = c.args[0]
        i, j = E.lensym(fresh('i')), E.lensym(fresh('j'))
        base = (a[1], a[2])
        er = [('ref', a[1], a[2] + (('ix', x, self.pty),)) for x in (i, j)]
        te = [('sl', ('D', tm('text', 'elem', x)), (), L.const(0), E.lensym(tm('len', tm('text', 'elem', x)))) for x in (i, j)]
        nm = c.path.split('::')[-1]
        if nm == 'sort_by':
            rs = E.call_value(st.copy(), c.args[1], c.argtys[1], er, c.ctx)
            if rs is None:
                raise Undec('comparison of the sort')
            for s, r in rs:
                t = r[4] if r[0] == 'en' else None
                self.ob(t is not None and t.parts[0] == 'cmp' and t.parts[1] == te[0][1:] and t.parts[2] == te[1][1:], 'sort-by-key', 'the vector is not sorted by ascending key', c.loc)
            st.setg('stage', ('g', 'sorted'))
        elif nm == 'dedup_by':
            self.ob(stage == 'sorted', 'dedup-after-sort', 'duplicates are removed from an unsorted vector', c.loc)
            rs = E.call_value(st.copy(), c.args[1], c.argtys[1], er, c.ctx)
            if rs is None:
                raise Undec('comparison of the deduplication')
            want = self.streq(te[0], te[1])
            for s, r in rs:
                self.ob(r == ('b', want), 'dedup-by-key', 'duplicates are not recognised by equal keys', c.loc)
            st.setg('stage', ('g', 'unique'))
        elif 'unstable' in nm:
            self.ob(False, 'sort-stable', 'an unstable sort loses which duplicate came first', c.loc)
        else:
            raise Undec('ordering operation ' + nm)
        if a[0] == 'sl':
            a = ('ref', a[1], a[2])
        st.setg('mut', ('g', 1))
        if nm == 'dedup_by':
            old = E.getp(st, E.rcell(st, a[1]), a[2], None, a[1], ())
            n = E.lensym(fresh('len'))
            if old[0] == 'seq':
                st.add_ge(L.sub(old[1], n))
                E.put(st, a[1], a[2], ('seq', n, old[2], old[3]), None)
        return [(st, UNIT)]

    # ---- mutation
    def stale(self, st):
        s = self.S(st)
        if s is not None:
            st.setg('S', ('st', s[:3] + (('g', 'stale'),) + s[4:]))
        st.setg('mut', ('g', 1))

    def keyid(self, k):
        return ('D', tm('text', 'key', k[1])) if k[0] == 'sym' else None

    def pairdone(self, st, v):
        p = st.g('pend')
        if p[0] == 'st':
            ok = v[0] == 'st' and v[1][0] == p[1][0] and (v[1][1] == p[1][1])
            if ok:
                st.setg('pend', ('g', 'none'))

    def seq(self, E, st, op, cell, path, kw):
        c = kw.get('call')
        if c is None or not self.is_map(E, c.argtys[0]):
            return None
        s = self.S(st)
        fresh_ = s is not None and s[3] == ('g', 'fresh')
        if op == 'insert':
            self.n('insert')
            e = kw['elem']
            self.ob(fresh_ and s[0] == ('b', 0) and st.ent_eq(L.sub(kw['at'], s[1][1])), 'insert-position', 'a pair is inserted at a position other than the one its key was searched to', c.loc)
            self.ob(fresh_ and e[0] == 'st' and self.keyid(e[1][0]) == s[2][1][0], 'insert-key', 'the inserted key is not the searched one', c.loc)
            self.pairdone(st, e)
        elif op == 'remove':
            self.n('remove')
            self.ob(fresh_ and s[0] == ('b', 1) and st.ent_eq(L.sub(kw['at'], s[1][1])), 'remove-position', 'an element other than the one found is removed', c.loc)
        elif op == 'reserve':
            return None
        else:
            self.ob(False, 'mutation', 'the vector of pairs is changed by %s' % op, c.loc)
        self.stale(st)
        return None

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        if ty != self.pty and not (rest and rest[0][0] == 'f'):
            return
        s = self.S(st)
        fresh_ = s is not None and s[3] == ('g', 'fresh')
        f = [p[1] for p in rest if p[0] == 'f']
        self.n('write')
        at = fresh_ and s[0] == ('b', 1) and st.ent_eq(L.sub(ix, s[1][1]))
        self.ob(at, 'write-position', 'an element other than the one found is written')
        if not f:
            self.ob(fresh_ and val[0] == 'st' and self.keyid(val[1][0]) == s[2][1][0], 'write-key', 'the pair written has a key other than the searched one')
            self.pairdone(st, val)
        elif f[0] == 0:
            self.ob(False, 'write-key', 'a key is overwritten')
        elif f[0] == 1:
            p = st.g('pend')
            if p[0] == 'st' and val == p[1][1]:
                st.setg('pend', ('g', 'none'))
        st.setg('mut', ('g', 1))


def run(ctx):
    P = ctx.P()
    W = 'verif_witness::seqs::'
    E0 = Engine(P, [])
    pty = None
    for i, t in enumerate(P.T):
        if t['s'] == '(std::string::String, u32)':
            pty = i
    if pty is None:
        raise Anchor('pair type')
    kty = P.T[pty]['e'][0]
    fns = ['find', 'find_cloned', 'get', 'get_mut', 'insert', 'remove', 'entry', 'from_vec', 'from_iter', 'e_or_insert', 'e_or_insert_with',
           'e_key', 'e_occ_get', 'e_occ_insert', 'e_occ_remove', 'e_vac_insert', 'new', 'with_capacity',
           'e_occ_remove_entry', 'e_occ_get_mut', 'e_occ_into_mut', 'e_vac_into_key', 'e_vac_insert_ref', 'e_and_modify',
           'sequences', 'sequences_mut', 'default']
    total = {}
    for name in fns:
        body = fn(P, W + name)
        pl = Seq(ctx, name, kty, pty)
        E = Engine(P, [pl])
        pl.E = E
        st, args, R = EN.entry(E, body)
        pl.init(st)
        E.frames.append([body, body.loc])
        res = E.run(body, args, st)
        L0 = body.loc
        FN = 'sequence::' + name

        def ob(cond, rule, what):
            ctx.oblige(cond, rule, FN, what, loc=L0)
        ob(len(res) > 0, 'returns', 'never returns')
        keyt = None
        for i, a in enumerate(args):
            if body.locals[i + 1][1] == 'k':
                keyt = a[1] if a[0] == 'sl' else ('D', tm('text', 'key', a[1]))
        varg = args[2] if len(args) > 2 else None
        for s, v in res:
            S = pl.S(s)
            if name in ('from_vec',):
                ob(s.g('stage')[1] == 'unique', 'built-sorted', 'the vector is not sorted and deduplicated when the map is built')
                continue
            if name == 'from_iter':
                ob(s.g('pend')[0] != 'st', 'pair-inserted', 'a pair taken from the iterator is not inserted')
                continue
            if name in ('sequences', 'sequences_mut'):
                ob(v[0] == 'sl' and len(args) == 1 and v[1] == args[0][1] and v[2][:len(args[0][2])] == args[0][2] and s.ent_eq(v[3]), 'whole-map', 'does not return the whole vector of pairs')
                if v[0] == 'sl':
                    q = E.getp(s, E.rcell(s, v[1]), v[2], None, v[1], ())
                    ob(q[0] == 'seq' and s.ent_eq(L.sub(q[1], v[4])), 'whole-map', 'does not return the whole vector of pairs')
                continue
            if name in ('new', 'with_capacity', 'default'):
                f = v[1][0] if v[0] == 'st' else v
                ob(f[0] == 'seq' and s.ent_eq(f[1]), 'new-empty', 'a new map is not empty')
                continue
            if S is None:
                raise Anchor('search in ' + name)
            ob(S[2][1][0] == keyt, 'searched-text', 'searches for a text other than the argument')
            found = S[0] == ('b', 1)
            n = S[1][1]
            el = pl.elem(s, n)
            mut = s.g('mut') == ('g', 1)

            def is_ref(r, f):
                if r[0] != 'ref':
                    return False
                ix = [p for p in r[2] if p[0] == 'ix']
                fs = [p[1] for p in r[2][r[2].index(ix[0]) + 1:] if p[0] == 'f'] if ix else None
                return bool(ix) and s.ent_eq(L.sub(ix[0][1], n)) and fs == [f]
            k = is_ok(E, v) if v[0] == 'en' else None
            pay = v[3][0][1] if v[0] == 'en' and v[3] else ()
            if name in ('find', 'find_cloned'):
                inc = s.g('inc')[1]
                if inc == 0 and not pl.counts.get('starts'):
                    raise Anchor('prefix test of find')
                if inc == 0:
                    nx = L.add(n, L.const(1 if found else 0))
                    ob(s.ent_ge(L.sub(nx, S[4][1])), 'find-end', 'reports nothing more to come although there is a next key')
                vs = [x['name'] for x in E.T[v[1]]['variants']]
                for has in (False, True):
                    c = inc if has else B.lnot(inc)
                    if B.land(s.bdd, c) == 0:
                        continue
                    want = {(False, False): 'NotFound', (False, True): 'Incomplete', (True, False): 'Found', (True, True): 'Undecided'}[(found, has)]
                    ob(B.implies(B.land(s.bdd, c), E.en_is(v, vs.index(want))), 'find-answer', 'does not answer %s when the text is %sfound and %s follows' % (want, '' if found else 'not ', 'more' if has else 'nothing'))
                if found:
                    for var, fs in v[3]:
                        if fs:
                            if name == 'find':
                                ob(is_ref(fs[0], 1), 'find-value', 'the value returned is not the one found')
                            else:
                                ob(fs[0] == el[1][1] or fs[0][0] == 'i' and s.ent_eq(L.sub(fs[0][1], el[1][1][1])), 'find-value', 'the value returned is not the one found')
                ob(not mut, 'no-change', 'changes the map')
            elif name in ('get', 'get_mut'):
                ob((k == 'Some') == found, 'get-answer', 'does not answer from the search result')
                if k == 'Some':
                    ob(is_ref(pay[0], 1), 'get-value', 'does not return the value found')
                ob(not mut, 'no-change', 'changes the map')
            elif name == 'insert':
                ob((k == 'Some') == found, 'insert-answer', 'does not return the previous value exactly if there was one')
                if k == 'Some':
                    ob(pay[0] == el[1][1], 'insert-old', 'does not return the previous value')
                ob(mut, 'insert-done', 'does not store the pair')
            elif name == 'remove':
                ob((k == 'Some') == found, 'remove-answer', 'does not return the removed pair exactly if there was one')
                ob(mut == found, 'remove-done', 'does not remove exactly the key found')
                if k == 'Some':
                    ob(pay[0] == el, 'remove-pair', 'does not return the removed pair')
            elif name == 'entry':
                ob(k == ('Occupied' if found else 'Vacant'), 'entry-kind', 'the entry kind does not follow the search result')
                fs = pay[0][1]
                ints = [x for x in fs if x[0] == 'i']
                ob(len(ints) == 1 and s.ent_eq(L.sub(ints[0][1], n)), 'entry-position', 'the entry does not remember the position found')
                ob(not mut, 'no-change', 'changes the map')
            elif name in ('e_or_insert', 'e_or_insert_with'):
                ob(is_ref(v, 1), 'entry-value', 'does not return the place of the entry value')
                ob(mut == (not found), 'entry-insert', 'does not store the default exactly for a vacant entry')
            elif name == 'e_occ_get' and found:
                ob(v[0] == 'i' and s.ent_eq(L.sub(v[1], el[1][1][1])), 'entry-get', 'does not return the value of the entry')
            elif name == 'e_occ_insert' and found:
                ob(v[0] == 'i' and s.ent_eq(L.sub(v[1], el[1][1][1])), 'entry-old', 'does not return the previous value')
                ob(mut, 'entry-insert', 'does not store the value')
            elif name == 'e_occ_remove':
                ob(mut == found, 'entry-remove', 'does not remove the entry')
                if found:
                    ob(v[0] == 'i' and s.ent_eq(L.sub(v[1], el[1][1][1])), 'entry-old', 'does not return the removed value')
            elif name == 'e_occ_remove_entry':
                ob(mut and found, 'entry-remove', 'does not remove the entry')
                ob(v == el, 'entry-old', 'does not return the removed pair')
            elif name in ('e_occ_get_mut', 'e_and_modify'):
                ob(mut == found, 'entry-modify', 'does not modify the value exactly of an occupied entry')
            elif name == 'e_occ_into_mut':
                ob(found and not mut and is_ref(v, 1), 'entry-value', 'does not return the place of the entry value')
            elif name == 'e_vac_insert_ref':
                ob(not found and mut and is_ref(v, 1), 'entry-value', 'does not return the place of the inserted value')
            elif name == 'e_vac_into_key':
                ob(not found and not mut and v[0] == 'sym' and ('D', tm('text', 'key', v[1])) == keyt, 'entry-key', 'does not return the own key')
            elif name == 'e_vac_insert':
                ob(mut == (not found), 'entry-insert', 'does not store the value of a vacant entry')
        for k, x in pl.counts.items():
            total[k] = total.get(k, 0) + x
        ctx.engine(E)
    for k, x in total.items():
        ctx.cover(k, x)
    ctx.floor('operations', len(fns), 18)
    ctx.floor('searches', total.get('search', 0), 8)
    ctx.floor('insertions', total.get('insert', 0), 2)
