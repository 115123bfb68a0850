"""C32: the character helpers agree with each other on every character.

Each helper is interpreted on symbolic characters, as vectors of bits, in 17
cases that partition all characters: below 0x20 (five free bits), and by the
highest bit that is set (5 to 20, the lower bits free).  The results are
compared exactly, bit by bit, with those documented.  The iterator over
prefixes is interpreted at its start and at an arbitrary position."""
from .locks import *

ID = 'C32'


ASCII = {'is_ascii_uppercase': ((65, 90),), 'is_ascii_lowercase': ((97, 122),), 'is_ascii_alphabetic': ((65, 90), (97, 122)), 'is_ascii_digit': ((48, 57),),
         'is_ascii_graphic': ((33, 126),), 'is_control': ((0, 31), (127, 159))}


class Chars(Locks):
    split = False
    only_ok = True

    def __init__(self, ctx):
        Locks.__init__(self, ctx)
        self.panics = []

    def on_panic(self, E, st, kind, l, chain):
        self.panics.append((where(E), loc(E), kind, chain))

    def call(self, E, st, c):
        last = c.path.split('::')[-1]
        if last in ('to_ascii_lowercase', 'to_ascii_uppercase') and c.argtys[0] is not None:
            v, t = c.args[0], c.argtys[0]
            if v[0] == 'ref':
                v, t = E.deref(st, v), E.T[t]['e']
            if E.T[t]['k'] == 'char' or E.T[t]['s'] == 'u8':
                x = E.to_bv(st, v, t)
                lo, hi = (65, 90) if last.endswith('lowercase') else (97, 122)
                n = B.land(ge(E, x, lo), B.lnot(ge(E, x, hi + 1)))
                y = list(x)
                y[5] = B.xor(x[5], n)
                return [(st, E.norm_bv(('bv', tuple(y), t)))]
        if 'From' in c.path and last in ('from', 'into') and len(c.args) == 1 and E.T[c.destty]['k'] in ('char', 'int') and E.T[c.argtys[0]]['k'] in ('char', 'int'):
            x = E.to_bv(st, c.args[0], c.argtys[0])
            n = E.bits_of(c.destty)
            if len(x) <= n:
                return [(st, E.norm_bv(('bv', x + (0,) * (n - len(x)), c.destty)))]
        if last == 'from_u32' and 'char' in c.path and E.T[c.destty].get('path') == 'std::option::Option':
            x = E.to_bv(st, c.args[0], c.argtys[0])
            ok = B.land(B.lnot(ge(E, x, 0x110000)), B.lnot(B.land(ge(E, x, 0xd800), B.lnot(ge(E, x, 0xe000)))))
            t = E.T[c.destty]['variants'][E.vix(c.destty, 'Some')]['fields'][0][1]
            yes, no = E.assume(st.copy(), ok), E.assume(st.copy(), B.lnot(ok))
            return [(s, v) for s, v in ((yes, E.some(c.destty, E.norm_bv(('bv', x, t)))), (no, E.variant(c.destty, 'None', ()))) if s is not None]
        if last in ASCII and c.argtys[0] is not None and E.T[c.argtys[0]]['k'] == 'ref' and E.T[E.T[c.argtys[0]]['e']]['k'] in ('char', 'int'):
            x = E.to_bv(st, E.deref(st, c.args[0]), E.T[c.argtys[0]]['e'])
            n = 0
            for lo, hi in ASCII[last]:
                n = B.lor(n, B.land(ge(E, x, lo), B.lnot(ge(E, x, hi + 1))))
            return [(st, ('b', n))]
        if last in ('is_ascii_control', 'is_ascii') and c.argtys[0] is not None and E.T[c.argtys[0]]['k'] == 'ref' and E.T[E.T[c.argtys[0]]['e']]['k'] in ('char', 'int'):
            x = E.to_bv(st, E.deref(st, c.args[0]), E.T[c.argtys[0]]['e'])
            n = B.lnot(ge(E, x, 128))
            if last == 'is_ascii_control':
                n = B.land(n, B.lor(B.lnot(ge(E, x, 32)), ge(E, x, 127)))
            return [(st, ('b', n))]
        return Locks.call(self, E, st, c)


def ge(E, x, k):
    return E.bv_ge(x, tuple((k >> i) & 1 for i in range(len(x))))


def cases(E, ty):
    """Partition of all characters -> (name, lowest, value)"""
    n = E.bits_of(ty)
    bit = lambda i: B.var(('t', tm('bit', i)))
    out = [('below 0x20', 0, ('bv', tuple(bit(i) for i in range(5)) + (0,) * (n - 5), ty))]
    for k in range(5, 21):
        out.append(('0x%x and up' % (1 << k), 1 << k, ('bv', tuple(bit(i) for i in range(k)) + (1,) + (0,) * (n - k - 1), ty)))
    return out


def is_const(E, st, n, val):
    """Is a condition certainly true / false?"""
    return E.assume(st.copy(), B.lnot(n) if val else n) is None


def same(E, st, v, x, ty):
    """Do a result and the expected bits agree on every character?"""
    y = E.to_bv(st, v, ty)
    if y is None or len(y) < len(x):
        return False
    return all(is_const(E, st, B.xor(a, b), False) for a, b in zip(y, tuple(x) + (0,) * (len(y) - len(x))))


def find(P, name):
    l = [b for b in P.bodies.values() if b.local and b.path == 'util::' + name]
    if len(l) != 1:
        raise Anchor('util::' + name)
    return l[0]


def run_on(ctx, P, b, mk, judge):
    """Interpret a helper on every case -> judge(E, st, x, lowest, name, ret)"""
    n = 0
    E0 = Engine(P, [])
    for i in range(len(cases(E0, b.locals[1][0]))):
        pl = Chars(ctx)
        E = Engine(P, [pl])
        E.bitadd = True
        name, low, x = cases(E, b.locals[1][0])[i]
        st, _, _ = EN.entry(E, b)
        Locks.init(pl, st)
        if not mk(name, low):
            continue
        n += 1
        for s, v in E.run(b, [x], st):
            judge(E, s, x[1], name, low, v)
        for w, l, kind, ch in pl.panics:
            ctx.violate('no-panic', w, 'may panic (%s) for a character %s' % (kind, name), loc=l, path=ch, entry=b.path)
        ctx.engine(E)
    return n


def run(ctx):
    P = ctx.P('unix')
    f = {k: find(P, k) for k in ('is_ctrl', 'ctrl', 'unctrl_upper', 'unctrl_lower')}
    n = 0

    def ob(b, c, rule, what, name):
        ctx.oblige(c, rule, b.path, '%s (characters %s)' % (what, name), loc=b.loc, entry=b.path)

    b = f['is_ctrl']
    n += run_on(ctx, P, b, lambda name, low: True, lambda E, s, x, name, low, v, b=b: ob(
        b, v[0] == 'b' and is_const(E, s, v[1], low == 0), 'control', 'does not say exactly of the characters below 0x20 that they are control characters', name))
    E0 = Engine(P, [])

    def upper(x):
        return tuple(x[:6]) + (1,) + tuple(x[7:])
    for k in ('unctrl_upper', 'unctrl_lower'):
        b = f[k]

        def judge(E, s, x, name, low, v, b=b, k=k):
            y = list(upper(x))
            if k == 'unctrl_lower':
                y[5] = B.xor(y[5], B.land(ge(E, tuple(y), 65), B.lnot(ge(E, tuple(y), 91))))
            ty = b.locals[0][0]
            ob(b, same(E, s, v, y, ty), 'letter', 'does not give the character of the control character', name)
            c = f['ctrl']
            for s2, w in E.run(c, [v], s.copy()):
                ob(b, same(E, s2, w, x, ty), 'round-trip', 'and back does not give the same character', name)
        n += run_on(ctx, P, b, lambda name, low: low == 0, judge)
    # ctrl of letters
    b = f['ctrl']
    for low in (0x40, 0x60):
        pl = Chars(ctx)
        E = Engine(P, [pl])
        E.bitadd = True
        ty = b.locals[1][0]
        w = E.bits_of(ty)
        x = tuple(B.var(('t', tm('bit', i))) for i in range(5)) + tuple((low >> i) & 1 for i in range(5, w))
        st, _, _ = EN.entry(E, b)
        Locks.init(pl, st)
        if low == 0x60:
            st = E.assume(st, B.land(ge(E, x, 0x61), B.lnot(ge(E, x, 0x7b))))
        n += 1
        for s, v in E.run(b, [('bv', x, ty)], st):
            ob(b, same(E, s, v, x[:5], b.locals[0][0]), 'control-of', 'does not give the control character of a letter', '0x%x and up' % low)
        for wh, l, kind, ch in pl.panics:
            ctx.violate('no-panic', wh, 'may panic (%s) for a letter' % kind, loc=l, path=ch, entry=b.path)
        ctx.engine(E)
    ctx.cover('cases interpreted', n)
    prefixes(ctx, P)


def moved(v, pos, full):
    """The same iterator, at a later character."""
    if v[0] == 'it' and v[1] == 'cidx':
        s = v[2]
        return ('it', 'cidx', ('sl', s[1], s[2], L.add(s[3], pos), L.sub(s[4], pos)), L.add(v[3], pos))
    if v[0] == 'it' and v[1] == 'chars':
        s = v[2]
        return ('it', 'chars', ('sl', s[1], s[2], L.add(s[3], pos), L.sub(s[4], pos)))
    if v[0] == 'st':
        return ('st', tuple(moved(x, pos, full) for x in v[1]))
    return v


def prefixes(ctx, P):
    """Each item is the text up to the end of one more character."""
    from ..models import add_boundary
    mk = find(P, 'prefixes')
    nx = [b for b in P.bodies.values() if b.local and 'Prefixes' in b.path and b.path.endswith('::next')]
    if len(nx) != 1:
        raise Anchor('next of the iterator over prefixes')
    nx = nx[0]
    for later in (False, True):
        pl = Chars(ctx)
        E = Engine(P, [pl])
        E.bitadd = True
        st, args, _ = EN.entry(E, mk)
        Locks.init(pl, st)
        base = as_slice(E, st, args[0], mk.locals[1][0])
        for s, v in E.run(mk, args, st):
            v = E.expand(v) if v[0] == 'sym' else v
            pos = L.const(0)
            if later:
                pos = L.var(L.sym(tm('position'), 0, MAXI))
                if not s.add_ge(L.sub(base[4], pos)):
                    continue
                add_boundary(E, base[1], base[2], L.add(base[3], pos))
                w = moved(v, pos, base)
                if w == v:
                    ctx.notes.append('the iterator over prefixes holds no iterator over characters: interpreted for its first item only')
                    continue
                v = w
            cell = ('D', tm('iterator'))
            E.celltys.setdefault(cell, mk.locals[0][0])
            s.mem[cell] = v
            rt = nx.locals[0][0]
            for s2, r in E.run(nx, [('ref', cell, ())], s):
                r = E.expand(r) if r[0] == 'sym' else r
                for node, i, s3 in E.split_variant(s2.copy(), r):
                    what = 'later' if later else 'at the start'
                    if i == E.vix(rt, 'None'):
                        ctx.oblige(s3.ent_eq(L.sub(base[4], pos)), 'prefixes', nx.path, 'ends before the whole text was given (%s)' % what, loc=nx.loc)
                        continue
                    t = E.payload(r, i, 0)
                    good = t[0] == 'sl' and (t[1], t[2]) == (base[1], base[2]) and s3.ent_eq(L.sub(t[3], base[3]))
                    ctx.oblige(good, 'prefixes', nx.path, 'gives a text that does not start where the text starts (%s)' % what, loc=nx.loc)
                    if not good:
                        continue
                    it = s3.mem.get(cell)
                    at = after(it, base)
                    if at is None:
                        at = t[4]
                    ctx.oblige(s3.ent_eq(L.sub(t[4], at)) and s3.ent_ge(L.add(L.sub(t[4], pos), L.const(-1))) and s3.ent_ge(L.sub(L.add(pos, L.const(4)), at)), 'prefixes', nx.path,
                               'gives another text than the one up to the end of the next character (%s)' % what, loc=nx.loc)
        for w, l, kind, ch in pl.panics:
            ctx.violate('no-panic', w, 'may panic (%s)' % kind, loc=l, path=ch, entry=nx.path)
        ctx.engine(E)


def after(v, base):
    """Position of an iterator over characters."""
    if v is None:
        return None
    if v[0] == 'it' and v[1] == 'cidx':
        return v[3]
    if v[0] == 'it' and v[1] == 'chars' and (v[2][1], v[2][2]) == (base[1], base[2]):
        return L.sub(v[2][3], base[3])
    if v[0] == 'st':
        for x in v[1]:
            r = after(x, base)
            if r is not None:
                return r
    return None
