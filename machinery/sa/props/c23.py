"""Signal sets against set algebra.  A set with membership bits m0..m5 is built
symbolically through the crate's own `new` and `set`; every operation and
operator is then interpreted once over two such symbolic sets, i.e. for all
64 x 64 pairs at the same time, with path conditions as BDDs.  The result is
read back through the crate's own `contains`, compared for every signal with
the set operation the function is named after, and compared with the set built
from the expected bits (so no stray representation bit can survive).  Loops
(extend, collect) carry the invariant "result = initial set united with the
signals taken from the iterator so far"."""
from .common import *

ID = 'C23'
SIG = ['Break', 'Continue', 'Interrupt', 'Resize', 'Suspend', 'Quit']
SS = 'signal::SignalSet'


class Run:
    def __init__(self, ctx, E, sty, gty):
        self.ctx, self.E, self.P = ctx, E, E.P
        self.sty, self.gty = sty, gty
        self.n = 0
        E.bit_types = frozenset(i for i, t in enumerate(E.T) if t['k'] == 'int' and not t.get('signed'))

    def f(self, path):
        return fn(self.P, path)

    def cell(self, st, v, ty):
        self.n += 1
        c = ('X', 'arg%d' % self.n)
        self.E.celltys[c] = ty
        st.mem[c] = v
        return ('ref', c, ())

    def build(self, st, bits):
        """The set with these membership bits -> [(state, value)]"""
        E = self.E
        cur = [(s, v) for s, v in E.run(self.f(SS + '::new'), [], st)]
        for j, m in enumerate(bits):
            nxt = []
            for s, v in cur:
                r = self.cell(s, v, self.sty)
                for s2, _ in E.run(self.f(SS + '::set'), [r, self.sig(j), ('b', m)], s):
                    nxt.append((s2, E.get(s2, r[1], (), self.sty)))
            cur = nxt
        return cur

    def sig(self, j):
        E = self.E
        return E.en_const(self.gty, E.vix(self.gty, SIG[j]), ())

    def sym(self, name):
        return [B.var(('m', name, j)) for j in range(6)]

    def holds(self, st, node):
        """node is true in every valuation of state st"""
        return B.implies(st.bdd, node)

    def same(self, st, v, bits, name):
        """value v is the set with these bits, in state st"""
        E, ctx = self.E, self.ctx
        for j in range(6):
            r = self.cell(st, v, self.sty)
            for s, c in E.run(self.f(SS + '::contains'), [r, self.sig(j)], st.copy()):
                ok = c[0] == 'b' and self.holds(s, B.lnot(B.xor(c[1], bits[j])))
                ctx.oblige(ok, 'result-membership', name, 'membership of %s in the result differs from the set operation' % SIG[j], loc=self.loc)
        for s, w in self.build(st.copy(), bits):
            e = E.equal(s, v, w, self.sty)
            ctx.oblige(e is not None and self.holds(s, e), 'result-canonical', name, 'the result is not equal to the set with the same members', loc=self.loc)


def run(ctx):
    P = ctx.P()
    E = Engine(P, [])
    sty = EN.local_ty(E, SS)
    gty = EN.local_ty(E, 'signal::Signal')
    if sty is None or gty is None:
        raise Anchor('signal types')
    names = [v['name'] for v in E.T[gty]['variants']]
    ctx.oblige(sorted(names) == sorted(SIG), 'six-signals', 'signal::Signal', 'the signals are %s' % names)
    R = Run(ctx, E, sty, gty)
    nops = 0

    def states(which):
        st = St()
        cur = [(st, [])]
        for w in which:
            nxt = []
            for s, vs in cur:
                if w in ('a', 'b'):
                    for s2, v in R.build(s, R.sym(w)):
                        nxt.append((s2, vs + [v]))
                elif w in ('x', 'y'):
                    v = E.mk(tm('arg', w), gty)
                    E.en_valid(s, v)
                    nxt.append((s, vs + [v]))
                elif w == 'f':
                    nxt.append((s, vs + [('b', B.var(('m', 'flag')))]))
            cur = nxt
        return cur

    a, b = R.sym('a'), R.sym('b')
    flag = B.var(('m', 'flag'))

    def one(w):
        v = E.mk(tm('arg', w), gty)
        return [E.en_is(v, E.vix(gty, SIG[j])) for j in range(6)]
    x, y = one('x'), one('y')
    zero = [0] * 6
    full = [1] * 6
    AND = [B.land(p, q) for p, q in zip(a, b)]
    OR = [B.lor(p, q) for p, q in zip(a, b)]
    XOR = [B.xor(p, q) for p, q in zip(a, b)]
    SUB = [B.land(p, B.lnot(q)) for p, q in zip(a, b)]
    NOT = [B.lnot(p) for p in a]

    def big(op, l):
        r = l[0]
        for z in l[1:]:
            r = op(r, z)
        return r
    # name -> (arguments, by-reference flags, result bits or predicate, writes to self)
    spec = {
        SS + '::new': ('', '', zero), SS + '::all': ('', '', full),
        SS + '::contains': ('ax', 'r', big(B.lor, [B.land(p, q) for p, q in zip(a, x)])),
        SS + '::contains_all': ('ab', 'r', big(B.land, [B.lor(p, B.lnot(q)) for p, q in zip(a, b)])),
        SS + '::intersects': ('ab', 'r', big(B.lor, AND)),
        SS + '::is_empty': ('a', 'r', B.lnot(big(B.lor, a))),
        SS + '::insert': ('ax', 'm', [B.lor(p, q) for p, q in zip(a, x)]),
        SS + '::remove': ('ax', 'm', [B.land(p, B.lnot(q)) for p, q in zip(a, x)]),
        SS + '::set': ('axf', 'm', [B.ite(q, flag, p) for p, q in zip(a, x)]),
        SS + '::difference': ('ab', 'r', SUB), SS + '::symmetric_difference': ('ab', 'r', XOR),
        SS + '::intersection': ('ab', 'r', AND), SS + '::union': ('ab', 'r', OR), SS + '::inverse': ('a', 'r', NOT),
        '<%s as std::convert::From<signal::Signal>>::from' % SS: ('x', '', x),
        '<%s as std::default::Default>::default' % SS: ('', '', zero),
        '<signal::Signal as std::ops::BitOr>::bitor': ('xy', '', [B.lor(p, q) for p, q in zip(x, y)]),
        '<signal::Signal as std::ops::Not>::not': ('x', '', [B.lnot(p) for p in x]),
        '<%s as std::ops::Not>::not' % SS: ('a', '', NOT),
        '<%s as std::cmp::PartialEq>::eq' % SS: ('ab', 'rr', big(B.land, [B.lnot(B.xor(p, q)) for p, q in zip(a, b)])),
        '<signal::Signal as std::cmp::PartialEq>::eq': ('xy', 'rr', big(B.lor, [B.land(p, q) for p, q in zip(x, y)])),
    }
    for tr, m, bits in (('BitAnd', 'bitand', AND), ('BitOr', 'bitor', OR), ('BitXor', 'bitxor', XOR), ('Sub', 'sub', SUB)):
        spec['<%s as std::ops::%s>::%s' % (SS, tr, m)] = ('ab', '', bits)
        spec['<%s as std::ops::%sAssign>::%s_assign' % (SS, tr, m)] = ('ab', 'm', bits)
    known = set(spec)
    for path, (who, refs, want) in sorted(spec.items()):
        body = P.fn(path)
        if body is None:
            raise Anchor('operation ' + path)
        nops += 1
        R.loc = body.loc
        for st, vals in states(who):
            args = []
            selfref = None
            for i, v in enumerate(vals):
                k = refs[i] if i < len(refs) else ''
                if k in ('r', 'm'):
                    r = R.cell(st, v, sty if who[i] in 'ab' else gty)
                    args.append(r)
                    if k == 'm':
                        selfref = r
                else:
                    args.append(v)
            res = E.run(body, args, st)
            ctx.oblige(len(res) > 0, 'returns', path, 'never returns', loc=body.loc)
            for s, v in res:
                if selfref is not None:
                    v = E.get(s, selfref[1], (), sty)
                if isinstance(want, list):
                    R.same(s, v, want, path)
                else:
                    ctx.oblige(v[0] == 'b' and R.holds(s, B.lnot(B.xor(v[1], want))), 'result-value', path,
                               'the result differs from the set-theoretic value', loc=body.loc)
    # any further operation of the set must be listed above
    for bd in P.bodies.values():
        if bd.local and bd.kind == 'fn' and not bd.generic and bd.vis == 'pub' and bd.path.startswith(SS + '::'):
            if bd.path not in known:
                ctx.notes.append('public operation without a specification: ' + bd.path)
    # loops
    for w, base in (('verif_witness::sigs::extend', True), ('verif_witness::sigs::from_iter', False)):
        body = fn(P, w)
        nops += 1
        R.loc = body.loc
        name = w.split('::')[-1]

        class It(Plugin):
            pulls = 0

            def key(self, st):
                return ()

            def call(self, E, st, c):
                if c.path.endswith('Iterator>::next') or c.path.endswith('::next'):
                    oty = c.destty
                    if E.T[oty].get('path', '').endswith('option::Option') and E.T[oty]['args'][0] == gty:
                        It.pulls += 1
                        out = [(st.copy(), E.variant(oty, 'None', ()))]
                        s = st.copy()
                        e = E.mk(fresh('sig'), gty)
                        E.en_valid(s, e)
                        g = list(s.g('taken')[1])
                        for j in range(6):
                            g[j] = ('b', B.lor(g[j][1], E.en_is(e, E.vix(gty, SIG[j]))))
                        s.setg('taken', ('st', tuple(g)))
                        out.append((s, E.variant(oty, 'Some', (e,))))
                        return out
                return None
        it = It()
        E2 = Engine(P, [it])
        R2 = Run(ctx, E2, sty, gty)
        R2.loc = body.loc
        st = St()
        if base:
            for s, v in R2.build(st, a):
                r = R2.cell(s, v, sty)
                s.setg('taken', ('st', tuple(('b', p) for p in a)))
                args = [r] + [E2.mk(tm('arg', 'list'), body.locals[2][0])]
                for s2, rv in E2.run(body, args, s):
                    R2.same(s2, E2.get(s2, r[1], (), sty), [p[1] for p in s2.g('taken')[1]], name)
        else:
            st.setg('taken', ('st', tuple(('b', 0) for p in a)))
            for s2, rv in E2.run(body, [E2.mk(tm('arg', 'list'), body.locals[1][0])], st):
                R2.same(s2, rv, [p[1] for p in s2.g('taken')[1]], name)
        ctx.oblige(it.pulls > 0, 'iterates', name, 'does not read the iterator', loc=body.loc)
        ctx.engine(E2)
    ctx.engine(E)
    ctx.floor('operations', nops, 31)
