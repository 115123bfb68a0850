"""Forwarding.  Every public method of the terminal, the screen and their
guards (generic ones through witness instantiations) is interpreted down to the
base operations of the platform guards and the screen buffer.  On every path
the operations performed, their arguments by value, and the value returned must
be those the method's name and documentation state; equivalent notations
(set_theme / set_attrs, write_char / write_str of the encoded character) are
normalised.  Both platforms."""
from .ops import *

ID = 'C15'
STYLES = {'bold': 'bold', 'italic': 'italic', 'underline': 'underline', 'reverse': 'reverse'}
SKIP = {'lock_read', 'lock_write', 'try_lock_read', 'try_lock_write'}      # C26
TYPES = ['terminal::Terminal', 'terminal::TerminalReadGuard', 'terminal::TerminalWriteGuard',
         'screen::Screen', 'screen::ScreenReadGuard', 'screen::ScreenWriteGuard']


def style_consts(ctx, P):
    out = {}
    for n in STYLES:
        E = Engine(P, [])
        r = E.run(fn(P, 'verif_witness::theme::c_' + n), [], St())
        out[n] = r[0][1]
    ctx.oblige(len(set(out.values())) == len(out), 'style-constants', 'terminal::Style', 'two styles are the same flag')
    return out


def expected(E, name, args, argtys, consts):
    """[(operation, arguments)] for the method of this name."""
    if name in STYLES:
        return [('add_style', (consts[name],))]
    if name == 'write_fmt':
        return [('write_str', (('formatted', args[0]),))]
    return [(name, tuple(args))]


class P15(Ops):
    def on_panic(self, E, st, kind, l, chain):
        pass


def one(ctx, P, target, body, opname, consts, screen=False):
    nm = '%s (%s)' % (body.path.replace('verif_witness::', ''), target)
    pl = P15(ctx)
    E = Engine(P, [pl])
    tys = [body.locals[i + 1][0] for i in range(body.argc)]
    # optional styles: one entry per variant
    opts = [i for i, t in enumerate(tys) if E.T[t]['k'] == 'enum' and E.T[t]['path'].endswith('option::Option') and 'Style' in E.tname(E.T[t]['args'][0])]
    for case in ([None] if not opts else ['None', 'Some']):
        over = {}
        for i in opts:
            def f(E, st, R, i=i):
                ty = tys[i]
                if case == 'None':
                    return E.variant(ty, 'None', ())
                return E.variant(ty, 'Some', (E.mk(tm('arg', 'opt%d' % i), E.T[ty]['args'][0]),))
            over[i] = f
        st, args, R = EN.entry(E, body, over=over)
        pl.init(st)
        a0 = 1 if opname not in ('stdout', 'stderr', 'from_path', 'new', 'with_terminal') else 0
        if body.argc and E.T[tys[0]]['k'] != 'ref':
            a0 = 0
        vals = []
        for i in range(a0, len(args)):
            v = args[i]
            if i in opts:
                v = v[3][0][1][0] if case == 'Some' else style_default(E, P)
            vals.append(pl.canon(E, st, v, tys[i]))
        res = E.run(body, args, st)
        if not res:
            ctx.oblige(False, 'operation', nm, 'never returns', loc=body.loc)
        for s, v in res:
            tr = pl.get(s, 'tr')
            if body.path.startswith(('screen::', '<screen::')) and opname in ('read_event', 'read_raw', 'read_raw_event'):
                tr = tuple(x for x in tr if x[1] != 'resize')            # C08
            want = expected(E, opname, vals, tys, consts)
            if want[0][0] == 'write_str' and want[0][1][0][0] == 'formatted':
                a = vals[0]
                t = tm('formatted', a[:2] if a[0] == 'sym' else a)
                want = [('write_str', (('text', L.var(L.sym(t)), L.var(L.sym(tm('len', t), 0, MAXI))),))]
            if opname.startswith('move_') and vals and vals[0][0] == 'i' and not tr:
                # moving by zero is no operation
                ctx.oblige(s.ent_eq(vals[0][1]), 'operation', nm, 'returns without performing ' + opname, loc=body.loc)
                ctx.oblige(is_ok(E, v) == 'Ok', 'result', nm, 'fails without performing anything', loc=body.loc)
                continue
            if opname == 'refresh' and len(tr) == 2 and tr[0][1] == 'refresh':
                pass
            check(ctx, E, s, v, tr, want, nm, body.loc, retcheck=E.tk(body.locals[0][0]) != 'tuple' or bool(E.T[body.locals[0][0]]['e']))
    ctx.engine(E)
    return len(res)


def style_default(E, P):
    r = Engine(P, []).run(fn(P, 'verif_witness::theme::c_none'), [], St())
    return r[0][1]


def special(ctx, P, target, consts):
    """Constructors and guards of guards."""
    for path, want in (('terminal::Terminal::new', 'terminal-stdout'), ('terminal::Terminal::stderr', 'terminal-stderr')):
        simple(ctx, P, target, path, [(want, ())])
    if target == 'unix':
        simple(ctx, P, target, 'verif_witness::term::from_path', [('terminal-open', None)])
    for path, want in (('screen::Screen::new', 'terminal-stdout'), ('screen::Screen::stderr', 'terminal-stderr')):
        simple(ctx, P, target, path, [(want, ()), ('screen-new', None)])
    simple(ctx, P, target, 'screen::Screen::with_terminal', [('screen-new', None)])


def themes(ctx, P, target):
    """Theme constructors and builders set the field they name, only."""
    for name, sets in (('new', ('fg', 'bg', 'style')), ('fg', ('fg',)), ('bg', ('bg',)), ('style', ('style',))):
        body = fn(P, 'verif_witness::theme::' + name)
        nm = 'terminal::Theme::%s (%s)' % (name, target)
        E = Engine(P, [])
        ty = body.locals[0][0]
        st, args, R = EN.entry(E, body)
        by = {body.locals[i + 1][1]: a for i, a in enumerate(args)}
        old = by.get('t')
        for s, v in E.run(body, args, st):
            for i, (f, fty) in enumerate(E.T[ty]['variants'][0]['fields']):
                got = v[1][i] if v[0] == 'st' else E.mk(tm('fld', v[1], 0, i), fty)
                want = by[f] if f in sets else E.mk(tm('fld', old[1], 0, i), fty) if old[0] == 'sym' else old[1][i]
                ctx.oblige(same_arg(E, s, got, want), 'theme-field', nm, 'field %s is not %s' % (f, 'the argument' if f in sets else 'kept'), loc=body.loc)
        ctx.engine(E)


def simple(ctx, P, target, path, want):
    body = fn(P, path)
    nm = '%s (%s)' % (path, target)
    pl = P15(ctx)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, body)
    pl.init(st)
    can = [pl.canon(E, st, a, body.locals[i + 1][0]) for i, a in enumerate(args)]
    for s, v in E.run(body, args, st):
        tr = pl.get(s, 'tr')
        w = []
        for op, a in want:
            if a is None:
                a = list(can)
                if op == 'screen-new' and len(a) == 1:
                    r = tr[0][3]
                    a = [E.payload(r, E.vix(r[1], 'Ok'), 0)] + a
            w.append((op, tuple(a)))
        check(ctx, E, s, v, tr, w, nm, body.loc)
    ctx.engine(E)


def run(ctx):
    total = states = 0
    for target in ('unix', 'windows'):
        P = ctx.P(target)
        consts = style_consts(ctx, P)
        n = 0
        for b in sorted(P.bodies.values(), key=lambda b: b.path):
            if not b.local or b.kind != 'fn' or b.vis != 'pub' or b.generic:
                continue
            head, _, op = b.path.rpartition('::')
            h = head.replace("::<'a>", '').replace("<'a>", '')
            if h.startswith('<') and h.endswith('TerminalExt>'):
                h = h[1:].split(' as ')[0]
            if h not in TYPES:
                continue
            if op in SKIP or op in ('new', 'stderr', 'with_terminal', 'name'):
                continue
            if op == 'borrow_term_write_guard':
                borrow(ctx, P, target, b)
                continue
            states += one(ctx, P, target, b, op, consts)
            n += 1
        for b in sorted(P.bodies.values(), key=lambda b: b.path):
            for m in ('term', 'scr'):
                pre = 'verif_witness::%s::' % m
                if b.path.startswith(pre) and b.kind == 'fn' and b.path[len(pre):][:2] in ('t_', 'g_', 's_'):
                    op = b.path[len(pre) + 2:]
                    if op.endswith('_opt'):
                        op = op[:-4]
                    states += one(ctx, P, target, b, op, consts)
                    n += 1
        special(ctx, P, target, consts)
        themes(ctx, P, target)
        ctx.floor('public operations (%s)' % target, n, 120)
        total += n
    ctx.cover('return_states', states)


def borrow(ctx, P, target, body):
    nm = '%s (%s)' % (body.path, target)
    pl = P15(ctx)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, body)
    pl.init(st)
    for s, v in E.run(body, args, st):
        ctx.oblige(not pl.get(s, 'tr'), 'operation', nm, 'performs an operation', loc=body.loc)
        if v[0] == 'ref':
            ctx.oblige(v == args[0], 'result', nm, 'does not return the guard itself', loc=body.loc)
        else:
            g = guards_in(v)
            ctx.oblige(len(g) == (2 if 'screen' in body.path else 1), 'result', nm, 'does not return a guard over the whole object', loc=body.loc)
    ctx.engine(E)
