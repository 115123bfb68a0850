"""Printing macros.  For every documented element, and sequences of them, on a
terminal, a screen and their guards, a witness function expanding the macro is
interpreted down to base operations; the operations, their order, arguments and
the handling of failures must be the documented ones."""
from .ops import *
from .c15 import style_consts, P15

ID = 'C16'
COLORS = ['black', 'blue', 'cyan', 'green', 'magenta', 'red', 'white', 'yellow']


def run(ctx):
    total = 0
    for target in ('unix', 'windows'):
        P = ctx.P(target)
        consts = style_consts(ctx, P)
        n = 0
        for b in sorted(P.bodies.values(), key=lambda b: b.path):
            pre = 'verif_witness::mac::'
            if b.kind != 'fn' or not b.path.startswith(pre):
                continue
            who, _, what = b.path[len(pre):].partition('_')
            one(ctx, P, target, b, who, what, consts)
            n += 1
        ctx.floor('macro expansions (%s)' % target, n, 80)
        total += n


def lit(s):
    b = s.encode()
    return ('text', L.var(L.sym(tm('lit', b))), L.const(len(b)))


def one(ctx, P, target, body, who, what, consts):
    pl = P15(ctx)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, body)
    pl.init(st)
    nm = 'term_write!%s on %s (%s)' % (' ' + what, {'t': 'Terminal', 's': 'Screen', 'tg': 'TerminalWriteGuard', 'sg': 'ScreenWriteGuard'}[who], target)
    a = pl.canon(E, st, args[1], body.locals[2][0]) if len(args) > 1 else None
    oty = None
    for i, t in enumerate(P.T):
        if t['k'] == 'enum' and t.get('path', '').endswith('option::Option') and P.T[t['args'][0]].get('path') == 'terminal::Color':
            oty = i
    cty = P.T[oty]['args'][0]

    def col(c):
        return E.variant(oty, 'Some', (E.variant(cty, c.capitalize(), ()),))
    none = E.variant(oty, 'None', ())
    empty = Engine(P, []).run(fn(P, 'verif_witness::theme::c_none'), [], St())[0][1]

    def fmt(tmpl, kinds):
        """write_str of the text formatted from a template."""
        return ('fmt', tmpl, kinds)
    RED, BOLD = ('set_fg', (col('red'),)), ('add_style', (consts['bold'],))
    fixed = {
        'reset': [('clear_attributes', ())],
        'no_fg': [('set_fg', (none,))], 'no_bg': [('set_bg', (none,))], 'no_style': [('set_style', (empty,))],
        'fg_expr': [('set_fg', (a,))], 'bg_expr': [('set_bg', (a,))], 'style_expr': [('set_style', (a,))],
        'style_add': [('add_style', (a,))], 'style_sub': [('remove_style', (a,))], 'theme_expr': [('set_theme', (a,))],
        'lit': [('write_str', (lit('literal'),))],
        'seq1': [RED, ('write_str', (lit('one'),)), ('set_bg', (col('blue'),)), BOLD, ('write_str', (lit('two'),)), ('clear_attributes', ())],
        'seq2': [('write_str', (lit(x),)) for x in ('one', 'two', 'three')],
        'seq3': [('set_fg', (a,)), ('write_str', (lit('x'),)), ('set_bg', (a,)), ('write_str', (lit('y'),)), ('set_fg', (none,))],
        'ln': [('write_str', (lit('\n'),))],
        'ln_seq': [RED, ('write_str', (lit('one'),)), BOLD, ('write_str', (lit('\n'),))],
        'seq': [RED, ('write_str', (lit('one'),)), BOLD, ('write_str', (lit('two'),))],
    }
    forms = {'display': ((192, 0), 'new_display'), 'debug': ((192, 0), 'new_debug'), 'fmt': ((192, 2, 45, 55, 0), 'new_display')}
    k, _, x = what.partition('_')
    if k in ('fg', 'bg') and x in COLORS:
        want = [('set_' + k, (col(x),))]
    elif k in ('add', 'del') and x in consts:
        want = [('add_style' if k == 'add' else 'remove_style', (consts[x],))]
    elif what in fixed:
        want = fixed[what]
    elif what in forms:
        want = None
    else:
        raise Anchor('expectation for macro element ' + what)
    res = E.run(body, args, st)
    if not res:
        ctx.oblige(False, 'operation', nm, 'never returns', loc=body.loc)
    for s, v in res:
        tr = pl.get(s, 'tr')
        if want is None:
            w = [('write_str', (None,))]
            check(ctx, E, s, v, tr, w, nm, body.loc, retcheck=who[0] == 't')
            if len(tr) == 1:
                formatted(ctx, E, tr[0], forms[what], args[1], nm, body.loc)
        else:
            check(ctx, E, s, v, tr, want, nm, body.loc, retcheck=who[0] == 't')
    ctx.engine(E)


def formatted(ctx, E, op, form, arg, nm, l):
    a = op[2][0]
    ok1 = ok2 = ok3 = False
    if a[0] == 'text' and len(a[1][1]) == 1:
        t = L.SYM[a[1][1][0][0]][0]
        if isinstance(t, tuple(type(x) for x in [tm('x')])) and t.parts[0] == 'formatted':
            fa = t.parts[1]
            if fa[0] == 'sym' and fa[1].parts[0] == 'fmtargs':
                tmpl, vals = fa[1].parts[1], fa[1].parts[2]
                nums = tuple(x[1][0] for x in tmpl[1]) if tmpl[0] == 'st' else None
                ok1 = nums == form[0]
                vs = vals[1] if vals[0] == 'st' else ()
                ok2 = len(vs) == 1 and vs[0][0] == 'sym' and vs[0][1].parts[:2] == ('fmtarg', form[1])
                ok3 = ok2 and vs[0][1].parts[2] == arg
    ctx.oblige(ok1, 'format-text', nm, 'the text around the value is not the documented one', loc=l)
    ctx.oblige(ok2, 'format-trait', nm, 'the value is not formatted by %s' % form[1][4:], loc=l)
    ctx.oblige(ok3, 'format-value', nm, 'the value formatted is not the argument', loc=l)
