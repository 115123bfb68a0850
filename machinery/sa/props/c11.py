"""C11: screen buffer operations stay in bounds for every size and text.

Every public operation of the screen buffer is interpreted from any state
satisfying the invariant (both cell arrays hold lines * columns proper cells),
with symbolic size, cursor, text and contents.  No panic may be reachable, the
invariant must hold again wherever the operation returns, and drawing at a
position outside the screen must write nothing and report it."""
from .cells import *


def in_screen(E, s, cur, cty, size):
    """Is a cursor value known to lie within size?"""
    if cur[0] == 'sym':
        cur = E.expand(cur)
    fs = E.T[cty]['variants'][0]['fields']
    ix = [f[0] for f in fs]
    line, col = (E.to_lin(s, cur[1][ix.index(n)], fs[ix.index(n)][1]) for n in ('line', 'column'))
    return s.ent_ge(L.sub(L.sub(size[0], line), L.const(1))) and s.ent_ge(L.sub(L.sub(size[1], col), L.const(1)))


def outside(which, cur):
    """Assumption: the cursor (`cur` finds its value) lies outside the screen."""
    def f(run, st, args):
        E = run.E
        v, cty = cur(run, st, args)
        if v[0] == 'sym':
            v = E.expand(v)
        fs = E.T[cty]['variants'][0]['fields']
        ix = [x[0] for x in fs]
        n = 'line' if which == 0 else 'column'
        l = E.to_lin(st, v[1][ix.index(n)], fs[ix.index(n)][1])
        if not st.add_ge(L.sub(l, run.dims[which])):
            return None
        for i, a in enumerate(args):
            if E.T[run.b.locals[i + 1][0]]['k'] == 'char':
                st = visible_char(run.pl, E, st, E.to_lin(st, a, run.b.locals[i + 1][0]))
        return st
    return f


def visible_char(pl, E, st, ch):
    """Assume that a character is visible and no combining mark."""
    ty = pl.opt_usize(E)
    w = E.mk(tm('uwidth', ch), ty)
    k = E.vix(ty, 'Some')
    st = E.assume(st, B.land(E.en_is(w, k), B.lnot(B.var(('t', tm('combining', ch))))))
    p = E.payload(w, k, 0)[1]
    return st if st is not None and st.add_ge(L.add(p, L.const(-1))) and st.add_ge(L.add(ch, L.const(-32))) else None


def refusing(P):
    """Operations that draw at a given position or draw one character -> [(body, what, finder)]"""
    out = []
    for b in operations(P):
        tys = [b.locals[i][0] for i in range(1, b.argc + 1)]
        if P.T[b.locals[0][0]].get('path') != 'std::result::Result' or not tys or P.T[tys[0]]['k'] != 'ref':
            continue
        pos = [i for i, t in enumerate(tys) if P.T[t].get('path') == 'terminal::Cursor']
        if pos:
            out.append((b, 'position', lambda run, st, args, i=pos[0], t=tys[pos[0]]: (args[i], t)))
        elif any(P.T[t]['k'] == 'char' for t in tys):
            def own(run, st, args):
                E = run.E
                i, t = field_of_type(E, run.pl.bt, lambda t: t.get('path') == 'terminal::Cursor', 'cursor')
                return run.pl.fields(E, st, run.cell)[1][i], t
            out.append((b, 'cursor', own))
    return out


def front(P, runs):
    """Arrays that drawing operations write to."""
    out = set()
    for r in runs.values():
        if any(P.T[r.b.locals[i][0]]['k'] == 'char' for i in range(1, r.b.argc + 1)):
            out |= {n for i, n, _ in r.pl.vecs if i in r.pl.written}
    if not out:
        raise Anchor('the cell array that drawing operations write to')
    return out


def run(ctx):
    P = ctx.P()
    good, runs, lost = fixpoint(ctx, P)
    fr = front(P, runs)
    handed = 0
    for p, r in sorted(runs.items()):
        nm = p.replace('buffer::', '')
        E = r.E
        for (w, kind, _), (l, chain) in sorted(r.pl.panics.items(), key=repr):
            ctx.violate('no-panic', w, '%s can panic (%s)' % (nm, kind), loc=l, path=chain, entry=nm)
        ctx.ok('no-panic', max(1, len(r.E.callsites)))
        for s, x in r.ends():
            for n, (v, size) in sorted(x.items()):
                ctx.oblige(v[0] == 'seq' and s.ent_eq(L.sub(v[1], L.mul(*size))), 'array-length', nm,
                           'the array `%s` may not hold lines * columns cells on return' % n, loc=r.b.loc)
        ctx.engine(E)
        # positions handed out
        t = E.T[r.ret]
        if t.get('path') == 'std::option::Option':
            inner = E.T[t['args'][0]]
            for s, v in r.out:
                for s2, x in r.option(s, v):
                    if x[0] == 'sym':
                        x = E.expand(x)
                    for i, ty in enumerate(inner.get('e', []) if inner['k'] == 'tuple' else []):
                        if E.T[ty].get('path') == 'terminal::Cursor':
                            ctx.oblige(in_screen(E, s2, x[1][i], ty, r.dims), 'position-in-screen', nm, 'returns a position that may lie outside the screen', loc=r.b.loc)
                            handed += 1
    for n in sorted(fr):
        ok = good[n] == 2
        ctx.oblige(ok, 'wide-on-one-line', 'ScreenBuffer.' + n, '', loc=None) if ok else None
        if not ok:
            for f, k, r in lost:
                if f == n:
                    bad = [x for x in r.pl.bad if 'wide' in x[2]] or r.pl.bad or [(r.b.path, r.b.loc, 'cells of unknown contents', [])]
                    w, l, why, ch = bad[0]
                    if k >= 1 or 'wide' in why:
                        ctx.violate('wide-on-one-line', w, 'stores %s' % why, loc=l, path=ch, entry=r.b.path)
    # drawing outside the screen
    n = 0
    for b, what, cur in refusing(P):
        for k in (0, 1):
            r = Run(ctx, P, b, good, assume=outside(k, cur))
            nm = b.path.replace('buffer::', '')
            n += 1
            for i, (w, l, ch) in sorted(r.pl.written.items()):
                ctx.violate('outside-refused', w, '%s writes a cell although the %s is outside the screen' % (nm, what), loc=l, path=ch, entry=nm)
            for s, v in r.out:
                v = r.E.expand(v) if v[0] == 'sym' else v
                i = r.E.vix(r.ret, 'Ok')
                ctx.oblige(r.E.assume(s.copy(), r.E.en_is(v, i)) is None, 'outside-refused', nm, 'may return success although the %s is outside the screen' % what, loc=b.loc)
            ctx.engine(r.E)
    ctx.cover('positions handed out', handed)
    ctx.floor('operations', len(runs), 10)
    ctx.floor('refused drawings', n, 2)
    ctx.notes.append('cells known to be proper per array (2: also on one line): %s' % sorted(good.items()))
