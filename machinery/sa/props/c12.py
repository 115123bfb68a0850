"""C12: screen cells never hold control characters.

From any buffer whose drawn cells are proper (one visible character followed
by combining marks only) every public operation leaves them proper, and the
cells handed out for display are such cells."""
from .cells import *
from .c11 import front


def run(ctx):
    P = ctx.P()
    good, runs, lost = fixpoint(ctx, P)
    fr = front(P, runs)
    for n in sorted(fr):
        if good[n] >= 1:
            ctx.ok('cells-proper')
            continue
        for f, k, r in lost:
            if f == n and k == 0:
                bad = [x for x in r.pl.bad if 'wide' not in x[2] and 'column' not in x[2]]
                if not bad:
                    ctx.violate('cells-proper', r.b.path, 'leaves cells of unknown contents in `%s`' % n, loc=r.b.loc)
                for w, l, why, ch in bad[:2]:
                    ctx.violate('cells-proper', w, 'stores %s' % why, loc=l, path=ch, entry=r.b.path)
    k = writes = 0
    for p, r in sorted(runs.items()):
        E, nm = r.E, p.replace('buffer::', '')
        ctx.ok('operation')
        writes += r.pl.writes
        ctx.engine(E)
        t = E.T[r.ret]
        if t.get('path') != 'std::option::Option' or E.T[t['args'][0]]['k'] != 'tuple':
            continue
        tys = E.T[t['args'][0]]['e']
        if r.pl.cty not in tys:
            continue
        for s, v in r.out:
            for s2, x in r.option(s, v):
                x = E.expand(x) if x[0] == 'sym' else x
                text = r.pl.text_in(E, x[1][tys.index(r.pl.cty)])
                k += 1
                if all(good[n] for n in fr):
                    ctx.oblige(text is not None and text[2] == GOOD, 'shown-cell-proper', nm, 'hands out a cell whose text is not known to be a visible character with combining marks', loc=r.b.loc)
    ctx.cover('cell writes examined', writes)
    ctx.floor('operations', len(runs), 10)
    ctx.floor('cells handed out', k, 1)
    ctx.notes.append('cells known to be proper per array (2: also on one line): %s' % sorted(good.items()))
