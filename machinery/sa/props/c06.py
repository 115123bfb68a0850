"""Effects of signal handlers.  A handler is any function with a C calling
convention and any function reified to a function pointer inside a call or
value of the signal API.  From every handler the closure over all call sites
(of every basic block, unwinding included) of the monomorphic MIR is taken.
Rules: every function reached is analysed or is an atomic operation; no call
through a pointer or trait object; no destructor with effects; no static other
than an atomic; no thread-local; no inline assembly; and, by interpreting the
handler on every signal number, no reachable assertion (overflow, bounds) or
panic."""
import re
from .common import *

ID = 'C06'
# integer arithmetic of the standard library that neither allocates nor panics
PURE = re.compile(r'^(std|core)::num::<impl [iu](\d+|size)>::(wrapping_\w+|saturating_\w+|checked_\w+|overflowing_\w+|trailing_\w+|leading_\w+|count_\w+|rotate_\w+|swap_bytes|reverse_bits|is_power_of_two|is_positive|is_negative|signum|unsigned_abs)$')
ATOMIC = re.compile(r'^std::sync::atomic::(Atomic[A-Za-z0-9]*(::<[^>]*>)?::(store|load|swap|fetch_\w+|compare_exchange\w*)|fence|compiler_fence)$')


def consts(x):
    """All constant operands inside a MIR statement."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'const':
            yield x[1]
        for y in x:
            for z in consts(y):
                yield z
    elif isinstance(x, dict):
        for y in x.values():
            for z in consts(y):
                yield z


def fnitems(x):
    if isinstance(x, list):
        if len(x) >= 2 and x[0] == 'fn' and isinstance(x[1], dict):
            yield x[1]
        for y in x:
            for z in fnitems(y):
                yield z


def statics(x):
    if isinstance(x, list):
        if len(x) >= 2 and x[0] in ('static', 'tls') and isinstance(x[1], str):
            yield x
        for y in x:
            for z in statics(y):
                yield z


def handlers(P):
    out = {}
    for b in P.bodies.values():
        if not b.local or b.path.startswith('verif_witness'):
            continue
        if b.abi and b.abi.startswith('C'):
            out[b.id] = (b, 'C calling convention')
        for bl in b.blocks:
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'cast' and 'ReifyFnPointer' in str(s[2][1]):
                    t = P.T[s[2][3]] if isinstance(s[2][3], int) else {}
                    for f in fnitems(s[2][2]):
                        if 'extern "C"' in t.get('s', '') or 'sigaction' in str(bl) or 'SigHandler' in str(bl):
                            h = P.bodies.get(f.get('inst')) or P.fn(f['path'])
                            if h is not None:
                                out[h.id] = (h, 'reified in ' + b.path)
    return out


class Pan(Plugin):
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def on_panic(self, E, st, kind, l, chain):
        self.ctx.bad('no-panic')
        self.ctx.violate('no-panic', self.name, 'can panic (%s)' % kind, loc=l, path=['%s (%s)' % x for x in chain])


def run(ctx):
    P = ctx.P()
    hs = handlers(P)
    sites = 0
    reached = set()
    for hid, (h, why) in sorted(hs.items()):
        ctx.sample('handlers', '%s (%s)' % (h.path, why))
        todo = [(h, [h.path])]
        seen = {h.id}
        while todo:
            b, chain = todo.pop()
            reached.add(b.id)
            for i, bl in enumerate(b.blocks):
                for s in bl['s'] + [bl['t']]:
                    for x in statics(s):
                        t = P.T[x[2]] if len(x) > 2 and isinstance(x[2], int) else {'s': '?'}
                        e = P.T[t['e']] if 'e' in t else t
                        sites += 1
                        ctx.oblige(x[0] == 'static' and 'sync::atomic::Atomic' in (e.get('path') or e['s']), 'statics', h.path,
                                   'uses the static %s of type %s' % (x[1], e['s']), loc=s[-1] if isinstance(s[-1], list) else b.loc, path=chain)
                t = bl['t']
                if t[0] == 'drop':
                    sites += 1
                    ty = P.T[t[1][2]]
                    ctx.oblige(t[3] is None, 'drops', h.path, 'runs the destructor of ' + ty['s'], loc=t[-1], path=chain)
                if t[0] == 'asm':
                    ctx.bad('asm')
                    ctx.violate('asm', h.path, 'executes inline assembly', loc=b.loc, path=chain)
                if t[0] != 'call':
                    continue
                sites += 1
                c = P.callee_of(b, t[1])
                if c is None:
                    ctx.bad('calls')
                    ctx.violate('calls', h.path, 'calls through a pointer in ' + b.path, loc=t[-1], path=chain)
                    continue
                p = c.get('rpath') or c['path']
                ctx.sample('call sites', '%s -> %s' % (b.path, p))
                if ATOMIC.match(p) or ATOMIC.match(c["path"]) or PURE.match(p):
                    ctx.ok('calls')
                    continue
                nb = P.bodies.get(c.get('inst'))
                if nb is None and c['krate'] == 'mortal':
                    nb = P.fn(c['path'])
                if nb is None or '::panicking' in p or p.startswith('std::rt::'):
                    ctx.bad('calls')
                    ctx.violate('calls', h.path, 'reaches %s, which is not an atomic operation' % p, loc=t[-1], path=chain + [p])
                    continue
                ctx.ok('calls')
                if nb.id not in seen:
                    seen.add(nb.id)
                    todo.append((nb, chain + [nb.path]))
        E = Engine(P, [Pan(ctx, h.path)])
        st, args, R = EN.entry(E, h)
        r = E.run(h, args, st)
        ctx.ok('no-panic', len(r))
        ctx.engine(E)
    ctx.cover('functions_reached', len(reached))
    ctx.cover('sites_examined', sites)
    ctx.floor('handlers', len(hs), 1)
