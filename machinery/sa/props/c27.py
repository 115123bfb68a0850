"""Movement, clearing, cursor mode and screen switching: the traces of
capability expansions of every such operation (tx.py) are compared with the
terminfo capability that means exactly that effect, parameters included, for
every amount and position and every set of capabilities the terminal has."""
from .tx import *

ID = 'C27'
G = "terminal::TerminalWriteGuard::<'a>::"
SG = "sys::terminal::TerminalWriteGuard::<'a>::"
M32 = (1 << 32) - 1


class Caps(Tx):
    """Splits states on whether an amount fits a terminfo parameter."""

    def __init__(self, ctx):
        Tx.__init__(self, ctx)
        self.amounts = ()

    def key(self, st):
        w = st.g('win')
        some = w is not None and w[0] == 'st' and w[1][0][0] == 'i' and (st.ent_ge(L.sub(w[1][0][1], L.const(1))), st.ent_eq(w[1][0][1]))
        return Tx.key(self, st) + (some,) + tuple(
            1 if st.ent_ge(L.sub(L.const(M32), a)) else 2 if st.ent_ge(L.sub(a, L.const(M32 + 1))) else 0 for a in self.amounts)


def has(E, info, name):
    """Condition 'the terminal provides this capability'."""
    for i, t in enumerate(E.T):
        if t.get('path', '').endswith('::' + name) and 'capability' in t.get('path', ''):
            cty = i
            break
    else:
        return None
    for i, t in enumerate(E.T):
        if t.get('path') == 'std::option::Option' and t['args'][-1] == cty:
            v = E.mk(tm('cap', E.T[cty]['path'], info), i)
            return E.en_is(v, E.vix(i, 'Some'))
    return None


def states(ctx, P, path, name=None):
    body = fn(P, path)
    pl = Caps(ctx)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, body)
    pl.anchor_out(E, R, st)
    pl.init(st)
    if R.term_ty is not None:
        u16 = E.find_ty(lambda t: t['s'] == 'u16')
        st.setg('win', ('st', tuple(('i', E.isym(fresh('nowin'), u16), u16) for _ in (0, 1))))
    nm = name or path.split('::', 1)[-1].replace("::<'a>", '')
    am = []
    for i, a in enumerate(args[1:]):
        ty = body.locals[i + 2][0]
        if a[0] == 'i':
            am.append(a[1])
        elif E.T[ty]['k'] == 'struct':
            for j, f in enumerate(E.T[ty]['variants'][0]['fields']):
                v = E.getp(st, a, (('f', j, f[1]),), ty, None, ())
                if v[0] == 'i':
                    am.append(v[1])
    pl.amounts = tuple(am)
    info = None
    i = [k for k, f in enumerate(E.T[R.term_ty]['variants'][0]['fields']) if E.T[f[1]].get('path') == 'terminfo::Database']
    if len(i) != 1:
        raise Anchor('terminfo database of a terminal')
    info = (R.term[1], R.term[2] + (('f', i[0], E.T[R.term_ty]['variants'][0]['fields'][i[0]][1]),))
    res = E.run(body, args, st)
    ctx.engine(E)
    return E, pl, body, args, am, info, res


class Op:
    def __init__(self, ctx, P, path, name=None):
        self.ctx = ctx
        self.E, self.pl, self.body, self.args, self.am, self.info, self.res = states(ctx, P, path, name)
        self.nm = name or path.replace("::<'a>", '')
        self.paths = 0

    def ob(self, c, rule, what):
        self.ctx.oblige(c, rule, self.nm, what, loc=self.body.loc)

    def each(self):
        """(state, Ok?, tokens, parameter values, all expansions succeeded)"""
        for s, v in self.res:
            for k, s2 in ret_split(self.E, s, v):
                self.paths += 1
                tr = self.pl.get(s2, 'tx')
                vals = s2.g('txv')[1] if s2.g('txv') is not None else ()
                yield s2, k == 'Ok', tr, [x[1] for x in vals]

    def present(self, s, name):
        """True / False / None (unknown) in state s."""
        h = has(self.E, self.info, name)
        if h is None:
            return None
        if B.implies(s.bdd, h):
            return True
        if B.land(s.bdd, h) == 0:
            return False
        return None

    def missing(self, s, name):
        """The capability may be missing in s only where it is not provided."""
        h = has(self.E, self.info, name)
        return h is None or B.land(s.bdd, h) == 0

    def amount(self, s, p, a):
        """Parameter value p is the amount a, limited to 32 bits."""
        if p[0] != 'i':
            return False
        lo, hi = s.copy(), s.copy()
        ok = True
        if lo.add_ge(L.sub(L.const(M32), a)):
            ok = lo.ent_eq(L.sub(p[1], a))
        if ok and hi.add_ge(L.sub(a, L.const(M32 + 1))):
            ok = hi.ent_eq(L.sub(p[1], L.const(M32)))
        return ok


def movement(ctx, P, op, one, many):
    o = Op(ctx, P, G + op)
    n = o.am[0]
    for s, ok, tr, vals in o.each():
        zero, pos = s.copy(), s.copy()
        z = zero.add_eq(n)
        p = pos.add_ge(L.sub(n, L.const(1)))
        if not tr:
            if ok:
                o.ob(not p, 'sends-something', 'reports success without sending a movement by a nonzero amount')
            else:
                o.ob(not z, 'zero-nothing', 'fails for a movement by zero')
                ones, more = pos.copy(), pos.copy()
                if ones.add_eq(L.sub(n, L.const(1))):
                    o.ob(o.missing(ones, many) or (one and o.missing(ones, one)), 'supported', 'refuses a movement by one although the terminal supports it')
                if more.add_ge(L.sub(n, L.const(2))):
                    o.ob(o.missing(more, many), 'supported', 'refuses a movement although the terminal provides ' + many)
            continue
        o.ob(not z, 'zero-nothing', 'sends something for a movement by zero')
        t = tr[0]
        if t[0] == 'cap' and t[1] == one and one:
            o.ob(s.ent_eq(L.sub(n, L.const(1))), 'amount', 'sends %s, which moves by one, for other amounts' % one)
        else:
            o.ob(t[:2] == ('cap', many), 'capability', 'sends %s instead of %s' % (t[1], many))
            o.ob(len(vals[0]) == 1 and o.amount(s, vals[0][0], n), 'amount', 'does not pass the amount to %s' % many)
        o.ob(len(tr) == 1, 'once', 'sends more than one sequence')
        o.ob(ok == (t[0] == 'cap' and t[3]), 'result', 'success does not follow from the expansion')
    return o


def required(ctx, P, op, cap):
    o = Op(ctx, P, G + op)
    for s, ok, tr, vals in o.each():
        if not tr:
            o.ob(not ok, 'sends-something', 'reports success although nothing was sent')
            o.ob(o.missing(s, cap), 'supported', 'refuses although the terminal provides ' + cap)
            continue
        o.ob(tr[0][:2] == ('cap', cap) and not vals[0], 'capability', 'sends %s instead of %s' % (tr[0][1], cap))
        o.ob(len(tr) == 1, 'once', 'sends more than one sequence')
        o.ob(ok == (tr[0][0] == 'cap' and tr[0][3]), 'result', 'success does not follow from the expansion')
    return o


def first_column(ctx, P):
    o = Op(ctx, P, G + 'move_to_first_column')
    for s, ok, tr, vals in o.each():
        if ok:
            o.ob([t[:2] for t in tr] == [('bytes', b'\r')], 'capability', 'does not send a carriage return')
        else:
            o.ob(all(t[:2] == ('bytes', b'\r') for t in tr), 'capability', 'does not send a carriage return')
    return o


def cursor_mode(ctx, P):
    o = Op(ctx, P, G + 'set_cursor_mode')
    E = o.E
    a = o.args[1]
    vs = [v['name'] for v in E.T[a[1]]['variants']]
    for s0, ok0, tr, vals in o.each():
        for i, v in enumerate(vs):
            s = s0.copy()
            if not E.assume(s, E.en_is(a, i)):
                continue
            want = 'CursorInvisible' if v == 'Invisible' else 'CursorNormal'
            if not tr:
                o.ob(ok0, 'optional', 'fails although the capability is optional')
                o.ob(o.missing(s, want), 'supported', 'sends nothing although the terminal provides ' + want)
            else:
                o.ob(len(tr) == 1 and tr[0][:2] == ('cap', want), 'capability', 'sends %s for mode %s' % ([t[1] for t in tr], v))
                o.ob(ok0 == (tr[0][0] == 'cap' and tr[0][3]), 'result', 'success does not follow from the expansion')
    return o


def position(ctx, P):
    o = Op(ctx, P, SG + 'move_cursor')
    E = o.E
    cty = EN.local_ty(E, 'terminal::Cursor')
    li, ci = E.fix(cty, 'line'), E.fix(cty, 'column')
    line, col = o.am[li], o.am[ci]
    for s, ok, tr, vals in o.each():
        if not tr:
            o.ob(not ok, 'sends-something', 'reports success although nothing was sent')
            o.ob(o.missing(s, 'CursorAddress'), 'supported', 'refuses although the terminal provides CursorAddress')
            continue
        t = tr[0]
        if t[:2] == ('cap', 'CursorHome'):
            o.ob(s.ent_eq(line) and s.ent_eq(col), 'position', 'sends CursorHome for a position other than the first cell')
        else:
            o.ob(t[:2] == ('cap', 'CursorAddress'), 'capability', 'sends %s instead of CursorAddress' % t[1])
            o.ob(len(vals[0]) == 2 and o.amount(s, vals[0][0], line) and o.amount(s, vals[0][1], col), 'position', 'does not pass line and column, in this order, to CursorAddress')
        o.ob(len(tr) == 1, 'once', 'sends more than one sequence')
        o.ob(ok == (t[0] == 'cap' and t[3]), 'result', 'success does not follow from the expansion')
    return o


def enter(ctx, P):
    o = Op(ctx, P, SG + 'enter_screen')
    order = ['EnterCaMode', 'ChangeScrollRegion', 'CursorHome', 'ExitAttributeMode', 'ClearScreen']
    req = {'ChangeScrollRegion', 'CursorHome', 'ClearScreen'}
    for s, ok, tr, vals in o.each():
        names = [t[1] for t in tr]
        known = all(t[0] == 'cap' and t[1] in order for t in tr)
        o.ob(known and len(set(names)) == len(names), 'capability', 'sends %s' % [n for n in names if n not in order])
        if not known:
            continue
        if 'EnterCaMode' in names:
            o.ob(names[0] == 'EnterCaMode', 'order', 'switches to the alternate screen after %s' % names[0])
        if 'ClearScreen' in names:
            o.ob(names.index('ClearScreen') == len(names) - 1, 'order', 'sends %s after clearing the screen' % names[-1])
        for t, v in zip(tr, vals):
            if t[1] == 'ChangeScrollRegion':
                w = s.g('win')
                good = len(v) == 2 and v[0][0] == 'i' and s.ent_eq(v[0][1])
                if good and w is not None:
                    s2 = s.copy()
                    if s2.add_ge(L.sub(w[1][0][1], L.const(1))):
                        good = s2.ent_eq(L.sub(v[1][1], L.add(w[1][0][1], L.const(-1))))
                o.ob(good and w is not None, 'scroll-region', 'the scroll region is not the whole screen, first line to last')
        allok = all(t[3] for t in tr)
        if ok:
            o.ob(allok, 'result', 'reports success although an expansion failed')
            for c in req:
                o.ob(c in names, 'complete', 'reports success without sending ' + c)
            if 'EnterCaMode' not in names:
                o.ob(o.missing(s, 'EnterCaMode'), 'supported', 'does not switch screens although the terminal provides EnterCaMode')
        elif not tr:
            pass
        else:
            o.ob(not tr[-1][3] or 'ClearScreen' not in names, 'result', 'fails although everything was sent')
    return o


def leave(ctx, P):
    o = Op(ctx, P, SG + 'exit_screen')
    for s, ok, tr, vals in o.each():
        names = [t[1] for t in tr]
        o.ob(names in ([], ['ExitCaMode']), 'capability', 'sends %s' % names)
        if not tr:
            o.ob(ok, 'optional', 'fails although the capability is optional')
            o.ob(o.missing(s, 'ExitCaMode'), 'supported', 'stays on the alternate screen although the terminal provides ExitCaMode')
        elif ok:
            o.ob(tr[0][0] == 'cap' and tr[0][3], 'result', 'reports success although the expansion failed')
    return o


def run(ctx):
    P = ctx.P()
    ops = [movement(ctx, P, 'move_up', 'CursorUp', 'ParmUpCursor'),
           movement(ctx, P, 'move_down', None, 'ParmDownCursor'),
           movement(ctx, P, 'move_left', 'CursorLeft', 'ParmLeftCursor'),
           movement(ctx, P, 'move_right', 'CursorRight', 'ParmRightCursor'),
           required(ctx, P, 'clear_screen', 'ClearScreen'),
           required(ctx, P, 'clear_to_line_end', 'ClrEol'),
           required(ctx, P, 'clear_to_screen_end', 'ClrEos'),
           first_column(ctx, P), cursor_mode(ctx, P), position(ctx, P), enter(ctx, P), leave(ctx, P)]
    ctx.cover('return_states', sum(o.paths for o in ops))
    ctx.floor('operations analysed', len(ops), 12)
