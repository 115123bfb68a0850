"""Traces of base operations.  The base operations are those of the platform's
terminal guards and of the screen buffer; everything above them is interpreted,
each base operation is recorded with its arguments and its result is left
symbolic.  Used to decide what a public operation (C15) or a macro element
(C16) amounts to."""
from .locks import *

TG = {'sys::terminal::TerminalWriteGuard', 'sys::terminal::TerminalReadGuard'}
SW = {'refresh'}
CTOR = {'sys::terminal::Terminal': {'stdout', 'stderr', 'open'}, 'sys::screen::Screen': {'new'}}
INTERNAL = {'new', 'enter_screen', 'exit_screen'}


def base_of(path):
    """(kind, operation) of a base operation's path."""
    head, _, op = path.rpartition('::')
    head = head.replace("::<'a>", '')
    if head in TG:
        return ('read' if 'Read' in head else 'write', op)
    if head == 'buffer::ScreenBuffer':
        return ('buffer', op)
    if head == 'sys::screen::ScreenWriteGuard' and op in SW:
        return ('screen', op)
    if op in CTOR.get(head, ()):
        return ('ctor', head.split('::')[1] + '-' + op)
    return None


def unwrap(E, v):
    """Strip single-field structs."""
    while v[0] == 'st' and len(v[1]) == 1:
        v = v[1][0]
    if v[0] == 'sym':
        t = v[1]
        while t.parts[0] == 'fld' and t.parts[2] == 0 and t.parts[3] == 0 and t.parts[1].parts[0] == 'arg':
            t = t.parts[1]
        return ('sym', t)
    return v


class Ops(Locks):
    names = ('held', 'out', 'tr')
    split = False
    only_ok = True

    def __init__(self, ctx=None, keep=()):
        Locks.__init__(self, ctx)
        self.keep = set(keep)        # base operations that are interpreted
        self.argtys = {}

    def init(self, st, held=()):
        Locks.init(self, st, held)
        self.set(st, 'tr', ())

    def canon(self, E, st, v, ty):
        """Argument value in comparable form."""
        if v[0] == 'sl':
            if v[1][0] == 'B':
                return ('text', L.add(L.var(L.sym(tm('lit', v[1][1]))), v[3]), v[4])
            s = E.getp(st, E.rcell(st, v[1]), v[2], None, v[1], ())
            if s[0] == 'seq' and s[3] is not None:
                return ('text', L.add(s[3], v[3]), v[4])
            return v
        if v[0] == 'ref':
            t = E.T[ty]
            if t['k'] == 'ref' and E.T[t['e']]['k'] not in ('struct', 'enum') and not t.get('mut'):
                return self.canon(E, st, E.getp(st, E.rcell(st, v[1]), v[2], None, v[1], ()), t['e'])
            return ('ref', v[1])
        return unwrap(E, v)

    def call(self, E, st, c):
        p = c.path
        if p.endswith('as std::ops::Drop>::drop') and p.startswith('<sys::') and E.T[c.argtys[0]].get('e') is not None and E.T[E.T[c.argtys[0]]['e']].get('local'):
            # what dropping guards does is decided by C01, C02 and C20
            return [(st, UNIT)]
        b = base_of(p)
        if b is not None and b[1] not in INTERNAL and b[1] not in self.keep:
            tr = self.get(st, 'tr')
            if len(tr) > 30:
                raise Anchor('operations of %s: repeated without bound' % where(E))
            args = tuple(self.canon(E, st, a, t) for a, t in zip(c.args, c.argtys))
            if b[0] != 'ctor':
                args = args[1:]
            r = E.mk(tm('res', len(tr), b[1]), c.destty)
            if r[0] == 'en':
                E.en_valid(st, r)
            self.set(st, 'tr', tr + ((b[0], b[1], args, r),))
            # a copy the engine sees, so that what is known of the results is kept
            st.setg('res', ('st', tuple(x[3] for x in self.get(st, 'tr'))))
            return [(st, r)]
        if p == 'std::char::methods::<impl char>::encode_utf8':
            l = E.to_lin(st, c.args[0], c.argtys[0])
            t = tm('encoded', l)
            return [(st, ('sl', ('D', t), (), L.const(0), E.lensym(tm('len', t))))]
        if 'fmt::rt::Argument' in p and c.callee['name'].startswith('new_'):
            return [(st, ('sym', tm('fmtarg', c.callee['name'], self.deep(E, st, c.args[0])), c.destty))]
        if 'fmt::Arguments' in p and c.callee['name'] in ('new', 'from_str', 'new_const', 'new_v1', 'from_str_nonconst'):
            return [(st, ('sym', tm('fmtargs', *[self.deep(E, st, a) for a in c.args]), c.destty))]
        if c.gpath == 'std::string::ToString::to_string' or p in ('std::fmt::format', 'std::fmt::format::format_inner'):
            a = c.args[0]
            if a[0] == 'ref':
                a = E.getp(st, E.rcell(st, a[1]), a[2], None, a[1], ())
            t = tm('formatted', a[:2] if a[0] == 'sym' else a)
            bs = self.plain(a)
            if bs is not None:
                return [(st, ('seq', L.const(len(bs)), None, L.var(L.sym(tm('lit', bs)))))]
            return [(st, ('seq', E.lensym(tm('len', t)), None, L.var(L.sym(t))))]
        return Locks.call(self, E, st, c)

    def plain(self, a):
        """Text of format arguments without placeholders, or of one literal
        formatted by Display."""
        if a[0] != 'sym' or a[1].parts[0] != 'fmtargs':
            return None
        ps = a[1].parts[1:]
        if len(ps) == 1 and ps[0][0] == 'sl' and ps[0][1][0] == 'B':
            return ps[0][1][1]
        if len(ps) == 2 and ps[0][0] == 'st' and [x[1][0] for x in ps[0][1]] == [192, 0] and ps[1][0] == 'st' and len(ps[1][1]) == 1:
            v = ps[1][1][0]
            if v[0] == 'sym' and v[1].parts[:2] == ('fmtarg', 'new_display') and v[1].parts[2][0] == 'sl' and v[1].parts[2][1][0] == 'B':
                return v[1].parts[2][1][1]
        return None

    def deep(self, E, st, v, n=0):
        if v[0] == 'ref' and n < 4:
            return self.deep(E, st, E.getp(st, E.rcell(st, v[1]), v[2], None, v[1], ()), n + 1)
        if v[0] == 'sl' and v[1][0] not in ('B',):
            return self.deep(E, st, E.getp(st, E.rcell(st, v[1]), v[2], None, v[1], ()), n + 1)
        if v[0] == 'st':
            return ('st', tuple(self.deep(E, st, x, n + 1) for x in v[1]))
        if v[0] == 'sym':
            return v[:2]
        return v


def normal(E, ops):
    """Equivalent forms of one operation in one notation."""
    kind, op, args = ops[:3]
    if op == 'set_theme' and kind != 'buffer' and len(args) == 1:
        ty = EN.local_ty(E, 'terminal::Theme')
        names = [f[0] for f in E.T[ty]['variants'][0]['fields']]
        if args[0][0] == 'st':
            fs = args[0][1]
        elif args[0][0] == 'sym':
            fs = [E.mk(tm('fld', args[0][1], 0, i), f[1]) for i, f in enumerate(E.T[ty]['variants'][0]['fields'])]
        else:
            return (kind, op, args)
        return (kind, 'set_attrs', tuple(unwrap(E, fs[names.index(n)]) for n in ('fg', 'bg', 'style')))
    if op == 'write_char':
        t = tm('encoded', args[0][1])
        s = ('sl', ('D', t), (), L.const(0), L.var(L.sym(tm('len', t), 0, MAXI)))
        return (kind, 'write_str', (s,))
    return (kind, op, args)


def same_arg(E, st, a, b):
    a, b = unwrap(E, a), unwrap(E, b)
    if a == b:
        return True
    if a[0] == 'i' and b[0] == 'i':
        return st.ent_eq(L.sub(a[1], b[1]))
    if a[0] in ('text', 'sl', 'lit') and b[0] == a[0] and a[1] == b[1]:
        return st.ent_eq(L.sub(a[-1], b[-1])) and st.ent_eq(L.sub(a[-2], b[-2])) if a[0] != 'text' else st.ent_eq(L.sub(a[2], b[2]))
    if a[0] == 'text' and b[0] == 'text':
        return st.ent_eq(L.sub(a[1], b[1])) and st.ent_eq(L.sub(a[2], b[2]))
    if a[0] == 'b' and b[0] == 'b':
        return B.land(st.bdd, B.xor(a[1], b[1])) == 0
    if a[0] == 'bv' and b[0] == 'bv':
        return all(B.land(st.bdd, B.xor(x, y)) == 0 for x, y in zip(a[1], b[1]))
    if a[0] == 'st' and b[0] == 'st':
        return len(a[1]) == len(b[1]) and all(same_arg(E, st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'en' and b[0] == 'en':
        return same_enum(E, st, a, b)
    return False


def same_enum(E, st, a, b):
    """Same variant (by name) and same payload on every valuation."""
    va, vb = E.T[a[1]]['variants'], E.T[b[1]]['variants']
    if [x['name'] for x in va] != [x['name'] for x in vb]:
        return False
    for i in range(len(va)):
        x, y = E.en_is(a, i), E.en_is(b, i)
        if B.land(st.bdd, B.xor(x, y)) != 0:
            return False
        if B.land(st.bdd, x) == 0 or not va[i]['fields']:
            continue
        for j in range(len(va[i]['fields'])):
            if not same_arg(E, st, E.payload(a, i, j), E.payload(b, i, j)):
                return False
    return True


def err_only(E, st, r):
    """Result value r is certainly an error in st."""
    return r[0] == 'en' and B.implies(st.bdd, E.en_is(r, E.vix(r[1], 'Err')))


def check(ctx, E, st, ret, tr, want, name, l, retcheck=True, may_skip=lambda k: False):
    """Operations tr with final result ret against the expected operations
    want: [(op, args) ...].  An error of one operation ends the sequence."""
    n = len(tr)
    got = [normal(E, x) for x in tr]
    kind = tr[0][0] if tr else '?'
    w = [normal(E, (kind,) + tuple(x)) for x in want]
    i = 0
    for k, x in enumerate(got):
        if i < len(w) and x[1] == w[i][1]:
            okay = len(x[2]) == len(w[i][2])
            ctx.oblige(okay, 'operation', name, 'performs %s with %d arguments instead of %d' % (x[1], len(x[2]), len(w[i][2])), loc=l)
            for j, (a, b) in enumerate(zip(x[2], w[i][2])):
                if b is None:
                    continue
                ctx.oblige(same_arg(E, st, a, b), 'arguments', name, 'argument %d of %s is not the value passed in' % (j + 1, x[1]), loc=l)
            i += 1
        else:
            ctx.oblige(False, 'operation', name, 'performs %s%s' % (x[1], ' instead of ' + w[i][1] if i < len(w) else ' in addition'), loc=l)
            return
        if i < len(w) and k + 1 == n:
            break
    if i < len(w):
        last = tr[-1][3] if tr else None
        stopped = last is not None and err_only(E, st, last)
        ctx.oblige(stopped, 'operation', name, 'returns without performing %s' % w[i][1], loc=l)
    else:
        for k, x in enumerate(tr[:-1]):
            if x[0] != 'buffer' and x[3][0] == 'en' and E.T[x[3][1]]['path'].endswith('Result'):
                ctx.oblige(not err_only(E, st, x[3]) and B.implies(st.bdd, E.en_is(x[3], E.vix(x[3][1], 'Ok'))), 'stops-at-error', name,
                           'goes on although %s failed' % x[1], loc=l)
        ctx.ok('operation')
    if tr and retcheck:
        r = tr[-1][3]
        if i < len(w) and ret[0] == 'en' and r[0] == 'en' and ret[1] != r[1]:
            e1, e2 = E.vix(ret[1], 'Err'), E.vix(r[1], 'Err')
            okay = B.implies(st.bdd, E.en_is(ret, e1)) and same_arg(E, st, E.payload(ret, e1, 0), E.payload(r, e2, 0))
        else:
            okay = same_arg(E, st, ret, r)
        ctx.oblige(okay, 'result', name, 'does not return the result of %s' % tr[-1][1], loc=l)
