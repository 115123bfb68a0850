"""Decoding tables.  Key capabilities: every insertion into the sequence map of
a new terminal is traced back to the capability whose text is inserted.
Characters: the conversion to keys at each special character and, symbolically,
for all others.  Mouse reports: the report parser with symbolic numbers, and
the number parser with its loop related to the digits read (V' = 10 V + d).
Colours: the parameter of the colour capabilities for each colour."""
from .tx import *

ID = 'C17'

KEYS = {'KeyUp': 'Up', 'KeyDown': 'Down', 'KeyLeft': 'Left', 'KeyRight': 'Right', 'KeyHome': 'Home', 'KeyEnd': 'End',
        'KeyNPage': 'PageDown', 'KeyPPage': 'PageUp', 'KeyDc': 'Delete', 'KeyIc': 'Insert'}
KEYS.update(('KeyF%d' % i, ('F', i)) for i in range(1, 13))
COLORS = ['Black', 'Red', 'Green', 'Yellow', 'Blue', 'Magenta', 'Cyan', 'White']
CHARS = {0x1b: 'Escape', 0x7f: 'Backspace', 0x0d: 'Enter', 0x0a: 'Enter', 0x09: 'Tab'}
INTRO = b'\x1b[<'


def key_name(E, st, v):
    """Name of a constant Key value, with its payload if it has one."""
    k = is_ok(E, v)
    if k is None:
        return None
    p = v[3][0][1] if v[3] else ()
    if not p:
        return k
    l = E.to_lin(st, p[0], E.T[v[1]]['variants'][E.vix(v[1], k)]['fields'][0][1])
    return (k, l[0]) if L.is_const(l) else (k, l)


class Table(Plugin):
    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = {}
        self.intro = 0

    def call(self, E, st, c):
        if c.path.startswith('<terminfo::capability::') and c.path.endswith('as_ref'):
            t = tm('captext', c.path.split('::')[2].split('<')[0])
            st.mem[('D', t)] = ('seq', E.lensym(tm('len', t)), None, L.var(L.sym(t)))
            return [(st, ('sl', ('D', t), (), L.const(0), E.lensym(tm('len', t))))]
        if c.path == 'nix::unistd::isatty':
            return None
        if 'SequenceMap' in c.path and c.callee['name'] == 'insert':
            self.insert(E, st, c)
            return [(st, E.mk(fresh('old'), c.destty))]
        return None

    def insert(self, E, st, c):
        nm = 'sys::terminal key table'
        k, v = c.args[1], c.args[2]
        src = None
        if k[0] == 'seq' and k[3] is not None and len(k[3][1]) == 1:
            src = L.SYM[k[3][1][0][0]][0].parts
        if src is None:
            raise Anchor('text of an inserted sequence')
        ks = is_ok(E, v)
        keyty = EN.local_ty(E, 'terminal::Key')
        key = None
        if v[0] == 'en' and v[1] == keyty:
            key = v
        elif v[0] == 'en' and v[3] and v[3][0][1] and v[3][0][1][0][0] == 'en' and v[3][0][1][0][1] == keyty:
            key = v[3][0][1][0]
        if src[0] == 'captext':
            cap = src[1]
            if cap not in KEYS:
                self.ctx.oblige(key is None, 'key-table', nm, '%s is not a known key capability' % cap, loc=c.loc)
                return
            got = key_name(E, st, key) if key is not None else None
            self.ctx.oblige(got == KEYS[cap], 'key-table', nm, '%s is decoded as %s' % (cap, got), loc=c.loc)
            self.seen.setdefault(cap, []).append((st.bdd, k[3]))
        elif src[0] in ('constbase', 'lit'):
            self.ctx.oblige(bytes(src[1]) == INTRO and key is None, 'mouse-intro', nm, 'the text %r is not the introduction of a mouse report' % (bytes(src[1]),), loc=c.loc)
            self.intro += 1
        else:
            raise Anchor('origin of an inserted sequence')


def table(ctx, P):
    pl = Table(ctx)
    E = Engine(P, [pl])
    E.coarse = True
    body = fn(P, 'sys::terminal::Terminal::stdout')
    st, args, R = EN.entry(E, body)
    E.run(body, args, st)
    for cap in KEYS:
        ctx.oblige(cap in pl.seen, 'key-known', 'sys::terminal key table', 'the capability %s is not decoded' % cap, loc=body.loc)
        if cap not in pl.seen:
            continue
        # inserted whenever the terminal provides it (as ASCII text)
        h = None
        for i, t in enumerate(E.T):
            if t.get('path') == 'std::option::Option' and E.T[t['args'][-1]].get('path') == 'terminfo::capability::' + cap:
                h = i
        if h is None:
            raise Anchor('query of ' + cap)
        cond = 0
        for b, _ in pl.seen[cap]:
            cond = B.lor(cond, b)
        sup = B.support(cond) if hasattr(B, 'support') else None
        bad = [str(a) for a in (sup or ()) if not relevant(B, a, cap)]
        ctx.oblige(not bad, 'key-always', 'sys::terminal key table', 'whether %s is decoded depends on %s' % (cap, bad[:2]), loc=body.loc)
    ctx.oblige(pl.intro > 0, 'mouse-intro', 'sys::terminal key table', 'mouse reports are never recognised', loc=body.loc)
    ctx.engine(E)
    ctx.floor('key capabilities', len(pl.seen), 10)


def relevant(B, a, cap):
    s = str(a)
    return ('capability::%s,' % cap in s) or ("captext(%s)" % cap in s) or 'capability' not in s and 'captext' not in s


def chars(ctx, P):
    body = None
    for b in P.bodies.values():
        if b.local and b.kind == 'fn' and b.path == '<terminal::Key as std::convert::From<char>>::from':
            body = b
    if body is None:
        raise Anchor('conversion of characters to keys')
    cty = body.locals[1][0]
    n = 0

    def go(lo, hi, what, pred):
        nonlocal n
        E = Engine(P, [])
        st, args, R = EN.entry(E, body)
        if lo == hi:
            args = [('i', L.const(lo), cty)]
        else:
            st.add_ge(L.sub(args[0][1], L.const(lo)))
            st.add_ge(L.sub(L.const(hi), args[0][1]))
        res = E.run(body, args, st)
        for s, v in res:
            n += 1
            ctx.oblige(pred(E, s, v, args[0]), 'char-key', 'terminal::Key::from(char)', 'decodes %s as %s' % (what, key_name(E, s, v)), loc=body.loc)
        ctx.oblige(len(res) > 0, 'char-key', 'terminal::Key::from(char)', 'has no result for %s' % what, loc=body.loc)
        ctx.engine(E)
    for ch in range(0x20):
        want = CHARS.get(ch) or ('Ctrl', ord(chr(ch | 0x40).lower()))
        go(ch, ch, '\\x%02x' % ch, lambda E, s, v, a: key_name(E, s, v) == want)
    go(0x7f, 0x7f, 'DEL', lambda E, s, v, a: key_name(E, s, v) == 'Backspace')

    def plain(E, s, v, a):
        k = key_name(E, s, v)
        return k is not None and k[0] == 'Char' and not isinstance(k[1], int) and s.ent_eq(L.sub(k[1], a[1]))
    go(0x20, 0x7e, 'a printable ASCII character', plain)
    go(0x80, 0x10ffff, 'a non-ASCII character', plain)
    ctx.cover('characters', n)


class Numbers(Plugin):
    """parse_mouse_data over symbolic numbers."""

    def __init__(self, path):
        self.path = path

    def key(self, st):
        n = st.mem[('G', 'n')]
        if n[1] < 3:
            return n
        # the two terminators apart
        e = st.g('pi2')[1][1][1]
        zero = tuple(st.ent_eq(st.g('pi%d' % i)[1][0][1]) for i in range(3))
        return (n, st.ent_eq(L.sub(e, L.const(0x4d))), st.ent_eq(L.sub(e, L.const(0x6d)))) + zero

    def call(self, E, st, c):
        if c.path != self.path:
            return None
        n = st.mem[('G', 'n')][1]
        if n > 2:
            raise Anchor('numbers in a mouse report')
        r = E.mk(tm('int', n), c.destty)
        out = []
        for k, s in ret_split(E, st.copy(), r):
            pay = tuple(E.payload(r, E.vix(c.destty, k), i) for i in range(1 if k == 'Some' else 0))
            rr = E.variant(c.destty, k, pay)
            if k == 'Some':
                a = c.args[0]
                v = E.deref(s, a)
                if v[0] != 'sl':
                    raise Anchor('input of the number parser')
                x = E.lensym(fresh('used'))
                if not s.add_ge(L.sub(x, L.const(1))) or not s.add_ge(L.sub(v[4], x)):
                    continue
                E.store_at(s, a[1], a[2], ('sl', v[1], v[2], L.add(v[3], x), L.sub(v[4], x)), None, None)
                u = s.g('used')
                s.setg('used', ('i', L.add(u[1], x), u[2]))
                s.setg('pi%d' % n, pay[0])
                s.setg('n', ('g', n + 1))
            out.append((s, rr))
        return out


def mouse(ctx, P):
    body = fn(P, 'sys::terminal::parse_mouse_data')
    nump = fn(P, 'sys::terminal::parse_integer')
    pl = Numbers(nump.path)
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, body)
    us = E.find_ty(lambda t: t['s'] == 'usize')
    u32 = E.find_ty(lambda t: t['s'] == 'u32')
    mods = EN.local_ty(E, 'terminal::ModifierState')
    E.bit_types = set(E.bit_types) | {E.find_ty(lambda t: t['s'] == 'u8')}
    if mods is None:
        raise Anchor('type of modifier sets')
    pty = E.T[nump.locals[0][0]]['args'][0]
    st.setg('used', ('i', L.const(0), us))
    st.setg('n', ('g', 0))
    for i in range(3):
        st.setg('pi%d' % i, E.mk(tm('noint', i), pty))
    res = E.run(body, args, st)
    nm = 'sys::terminal::parse_mouse_data'

    def ob(c, rule, what):
        ctx.oblige(c, rule, nm, what, loc=body.loc)
    mty = EN.local_ty(E, 'terminal::MouseEvent')
    ity = EN.local_ty(E, 'terminal::MouseInput')
    cty = EN.local_ty(E, 'terminal::Cursor')
    F = {k: E.fix(mty, k) for k in ('position', 'input', 'modifiers')}
    li, ci = E.fix(cty, 'line'), E.fix(cty, 'column')
    SH, ALT, CT = 4, 8, 16
    complete = 0
    modbits = {k: modifier(P, k) for k in ('SHIFT', 'ALT', 'CTRL')}
    for s0, v0 in res:
        for k, s in ret_split(E, s0, v0):
            n = s.mem[('G', 'n')][1]
            if k == 'None':
                if n == 3:
                    nums = [s.g('pi%d' % i)[1] for i in range(3)]
                    t = s.copy()
                    good = t.add_eq(L.sub(nums[0][1][1], L.const(0x3b))) and t.add_eq(L.sub(nums[1][1][1], L.const(0x3b))) \
                        and t.add_ge(L.sub(nums[1][0][1], L.const(1))) and t.add_ge(L.sub(nums[2][0][1], L.const(1)))
                    for end in (0x4d, 0x6d):
                        e = t.copy()
                        ob(not good or not e.add_eq(L.sub(nums[2][1][1], L.const(end))), 'complete-report', 'rejects a complete mouse report')
                continue
            ob(n == 3, 'three-numbers', 'decodes a report of %d numbers' % n)
            if n != 3:
                continue
            complete += 1
            pay = E.payload(v0, E.vix(v0[1], 'Some'), 0)
            ev, used = pay[1][0], pay[1][1]
            nums = [s.g('pi%d' % i)[1] for i in range(3)]
            (inp, e0), (col, e1), (line, e2) = [(x[0][1], x[1][1]) for x in nums]
            ob(s.ent_eq(L.sub(used[1], s.g('used')[1])), 'report-length', 'does not report the length of what it decoded')
            ob(s.ent_eq(L.sub(e0, L.const(0x3b))) and s.ent_eq(L.sub(e1, L.const(0x3b))), 'separators', 'accepts numbers not separated by semicolons')
            pos = ev[1][F['position']]
            for what, lin, j in (('line', line, li), ('column', col, ci)):
                one = s.copy()
                ob(not one.add_ge(L.sub(lin, L.const(1))) or one.ent_eq(L.sub(L.add(pos[1][j][1], L.const(1)), lin)), 'position', 'the %s is not the reported %s less one' % (what, what))
            # modifiers
            md = unbv(ev[1][F['modifiers']])
            ib = E.to_bv(s, ('i', inp, u32), u32)
            if md is None:
                raise Anchor('modifier bits')
            mb = md[1] if md[0] == 'bv' else E.to_bv(s, md, md[2])
            for name, mask in (('SHIFT', SH), ('ALT', ALT), ('CTRL', CT)):
                bit = modbits[name]
                x, y = mb[bit], ib[mask.bit_length() - 1]
                ob(B.land(s.bdd, B.xor(x, y)) == 0, 'modifiers', '%s does not follow bit %d of the report' % (name, mask))
            # kind and button
            mi = ev[1][F['input']]
            press, rel = s.ent_eq(L.sub(e2, L.const(0x4d))), s.ent_eq(L.sub(e2, L.const(0x6d)))
            rest = [ib[i] for i in range(32) if not 0x1c >> i & 1]
            idx = [i for i in range(32) if not 0x1c >> i & 1]

            def eq(n):
                x = 1
                for i in idx:
                    x = B.land(x, ib[i] if n >> i & 1 else B.lnot(ib[i]))
                return x
            names = [v['name'] for v in E.T[ity]['variants']]
            bty = EN.local_ty(E, 'terminal::MouseButton')
            bn = [v['name'] for v in E.T[bty]['variants']]
            for code, want in [(0, 'Left'), (1, 'Middle'), (2, 'Right'), (3, 'Other')]:
                for end, kind in ((0x4d, 'ButtonPressed'), (0x6d, 'ButtonReleased')):
                    t = s.copy()
                    if not t.add_eq(L.sub(e2, L.const(end))) or not E.assume(t, eq(code)):
                        continue
                    ob(B.implies(t.bdd, E.en_is(mi, names.index(kind))), 'mouse-kind', 'a button report ending in %s is not a %s' % (chr(end), kind))
                    pv = E.payload(mi, names.index(kind), 0)
                    if pv is not None and pv[0] == 'en':
                        ob(B.implies(t.bdd, E.en_is(pv, bn.index(want))), 'mouse-button', 'button %d is not decoded as %s' % (code, want))
            for code, want in [(64, 'WheelUp'), (65, 'WheelDown')] + [(32 + i, 'Motion') for i in range(4)]:
                t = s.copy()
                if not E.assume(t, eq(code)):
                    continue
                ob(B.implies(t.bdd, E.en_is(mi, names.index(want))), 'mouse-kind', 'report %d is not decoded as %s' % (code, want))
            t = s.copy()
            if t.add_ge(L.sub(e2, L.const(0x4e))) and t.add_ge(L.sub(L.const(0x6c), e2)):
                ob(False, 'terminator', 'accepts a report not ended by M or m')
            t = s.copy()
            ob(not t.add_ge(L.sub(L.const(0x4c), e2)), 'terminator', 'accepts a report not ended by M or m')
            t = s.copy()
            ob(not t.add_ge(L.sub(e2, L.const(0x6e))), 'terminator', 'accepts a report not ended by M or m')
    ctx.floor('complete reports', complete, 2)
    ctx.engine(E)


def unbv(v):
    while v[0] == 'st' and len(v[1]) == 1:
        v = v[1][0]
    return v if v[0] in ('bv', 'i') else None


def modifier(P, name):
    """Bit of a modifier constant, read from the constant itself."""
    b = P.fn('verif_witness::term::m_' + name.lower())
    if b is None:
        raise Anchor('modifier witness')
    E = Engine(P, [])
    (s, v), = E.run(b, [], EN.entry(E, b)[0])
    v = unbv(v)
    n = v[1][0] if v[0] == 'i' else sum(1 << i for i, x in enumerate(v[1]) if x == 1)
    if n & (n - 1) or not n:
        raise Anchor('modifier bit')
    return n.bit_length() - 1


class Digits(Plugin):
    """Ghost V: the number spelled by the digits read so far."""

    def __init__(self, ctx, fnname):
        self.ctx, self.fn = ctx, fnname
        self.reads = 0

    def elem_read(self, E, st, cell, path, ix, ty):
        if cell != self.cell:
            return None
        at = st.g('at')
        last = st.g('last')
        if st.ent_eq(L.sub(ix, L.sub(at[1], L.const(1)))):
            return last
        self.reads += 1
        self.ctx.oblige(st.ent_eq(L.sub(ix, at[1])), 'digits-in-order', self.fn, 'reads a byte other than the next one', loc=loc(E))
        # everything before the byte just read must be a digit
        if st.ent_ge(L.sub(at[1], L.add(self.start, L.const(1)))):
            good = st.ent_ge(L.sub(last[1], L.const(48))) and st.ent_ge(L.sub(L.const(57), last[1]))
            self.ctx.oblige(good, 'digits-only', self.fn, 'goes on after a byte that is not a digit', loc=loc(E))
        b = ('i', E.isym(fresh('byte'), ty), ty)
        V = st.g('V')
        st.setg('P', V)
        st.setg('V', ('i', L.add(L.scale(V[1], 10), L.sub(b[1], L.const(48))), V[2]))
        st.setg('at', ('i', L.add(ix, L.const(1)), at[2]))
        st.setg('last', b)
        return b

    def key(self, st):
        # keep the three ranges a byte can lie in apart
        b = st.g('last')[1]
        return (st.ent_eq(L.sub(st.g('at')[1], self.start)),
                st.ent_ge(L.sub(b, L.const(58))), st.ent_ge(L.sub(L.const(47), b)))


def integer(ctx, P):
    body = fn(P, 'sys::terminal::parse_integer')
    pl = Digits(ctx, 'sys::terminal::parse_integer')
    E = Engine(P, [pl])
    st, args, R = EN.entry(E, body)
    a = args[0]
    v = E.deref(st, a)
    if v[0] != 'sl':
        raise Anchor('argument of the number parser')
    pl.cell, pl.start = v[1], v[3]
    us = E.find_ty(lambda t: t['s'] == 'usize')
    u8 = E.find_ty(lambda t: t['s'] == 'u8')
    st.setg('at', ('i', v[3], us))
    st.setg('V', ('i', L.const(0), us))
    st.setg('P', ('i', L.const(0), us))
    st.setg('last', ('i', L.const(48), u8))
    some = 0
    for s0, r in E.run(body, args, st):
        for k, s in ret_split(E, s0, r):
            if k != 'Some':
                continue
            some += 1
            n, b = E.payload(r, E.vix(r[1], 'Some'), 0)[1]

            def ob(c, rule, what):
                ctx.oblige(c, rule, pl.fn, what, loc=body.loc)
            ob(s.ent_eq(L.sub(n[1], s.g('P')[1])), 'number-value', 'does not return the number its digits spell')
            ob(s.ent_eq(L.sub(b[1], s.g('last')[1])), 'number-end', 'does not return the byte behind the digits')
            t = s.copy()
            ob(not (t.add_ge(L.sub(b[1], L.const(48))) and t.add_ge(L.sub(L.const(57), b[1]))), 'number-end', 'ends before the last digit')
            w = E.deref(s, a)
            ob(w[0] == 'sl' and w[1] == v[1] and s.ent_eq(L.sub(w[3], s.g('at')[1])) and s.ent_eq(L.sub(L.add(w[3], w[4]), L.add(v[3], v[4]))),
               'number-rest', 'does not leave the input right behind the byte that ended the number')
    ctx.floor('number results', some, 1)
    ctx.cover('digit_reads', pl.reads)
    ctx.engine(E)


def colors(ctx, P):
    for op, cap in (('set_fg', 'SetAForeground'), ('set_bg', 'SetABackground')):
        body = fn(P, "sys::terminal::TerminalWriteGuard::<'a>::" + op)
        for i, cname in enumerate(COLORS):
            pl = Tx(ctx)
            E = Engine(P, [pl])
            st, args, R = EN.entry(E, body)
            pl.anchor_out(E, R, st)
            pl.init(st)
            cty = EN.local_ty(E, 'terminal::Color')
            oty = body.locals[2][0]
            args[1] = E.variant(oty, 'Some', (E.variant(cty, cname, ()),))
            sent = 0
            for s, v in E.run(body, args, st):
                tr = pl.get(s, 'tx')
                for t, vals in zip(tr, s.g('txv')[1] if tr else ()):
                    good = t[:2] == ('cap', cap) and len(vals[1]) == 1 and vals[1][0][0] == 'i' and s.ent_eq(L.sub(vals[1][0][1], L.const(i)))
                    sent += good
                    ctx.oblige(good, 'colour-number', 'sys::terminal::TerminalWriteGuard::' + op, '%s is not sent as number %d with %s' % (cname, i, cap), loc=body.loc)
            ctx.oblige(sent > 0, 'colour-sent', 'sys::terminal::TerminalWriteGuard::' + op, '%s is never sent' % cname, loc=body.loc)
            ctx.engine(E)
    ctx.cover('colours', 2 * len(COLORS))


def run(ctx):
    P = ctx.P()
    table(ctx, P)
    chars(ctx, P)
    integer(ctx, P)
    mouse(ctx, P)
    colors(ctx, P)
