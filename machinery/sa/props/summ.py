"""Effects of functions through the call graph, and summaries of calls whose
effects a rule does not care about."""
from .locks import *

LOCKOPS = ('std::sync::Mutex::<T>::lock', 'std::sync::Mutex::<T>::try_lock')
WRITES = ('nix::unistd::write', 'libc::write', 'libc::writev', 'nix::sys::uio::writev', 'libc::send')
READS = ('nix::unistd::read', 'libc::read')
WAITS = ('nix::sys::select::select', 'nix::sys::select::pselect', 'nix::poll::poll', 'libc::select', 'libc::poll')
WIN_WRITES = ('WriteConsoleW', 'WriteConsoleOutputW', 'WriteConsoleOutputA', 'WriteFile', 'FillConsoleOutputCharacterW', 'FillConsoleOutputAttribute',
              'SetConsoleCursorPosition', 'SetConsoleTextAttribute', 'SetConsoleCursorInfo')
WIN_READS = ('ReadConsoleInputW', 'ReadConsoleInputA', 'ReadConsoleW', 'ReadConsoleA', 'PeekConsoleInputW', 'ReadFile')


def classify(path):
    if path in LOCKOPS:
        return 'lock'
    if path in WRITES:
        return 'write'
    if path in READS:
        return 'read'
    if path in WAITS:
        return 'wait'
    last = path.rsplit('::', 1)[-1]
    if path.startswith('winapi::'):
        if last in WIN_WRITES:
            return 'write'
        if last in WIN_READS:
            return 'read'
    return None


def callees(P, b):
    """(callee path, instance id) of every call, drop and closure of a body."""
    for i, bl in enumerate(b.blocks):
        t = bl['t']
        if t[0] == 'call':
            f = P.callee_of(b, t[1])
            if f is not None:
                yield (f.get('rpath') or f['path'], f.get('inst'), t[6])
            else:
                yield ('?', None, t[6])
        elif t[0] == 'drop' and t[3]:
            yield ('drop of ' + str(P.T[t[2]]['s']), t[3], t[6])


class Effects:
    """Labels of the primitives each body can reach."""

    def __init__(self, P, classify=classify, tydrop=None):
        self.P = P
        succ = {}
        self.eff = {}
        for b in P.bodies.values():
            e = set()
            s = set()
            for p, inst, l in callees(P, b):
                x = classify(p)
                if x:
                    e |= x if isinstance(x, (set, frozenset)) else {x}
                if inst in P.bodies:
                    s.add(inst)
            # closures made here may be called by whatever they are passed to
            for ty, _ in b.locals:
                t = P.T[ty] if isinstance(ty, int) else {}
                if t.get('k') == 'closure' and t.get('body') in P.bodies:
                    s.add(t['body'])
                if t.get('k') == 'fndef' and t['f'].get('inst') in P.bodies:
                    s.add(t['f']['inst'])
            if tydrop:
                for bl in b.blocks:
                    t = bl['t']
                    if t[0] == 'drop':
                        x = tydrop(P.T[t[2]])
                        if x:
                            e.add(x)
            self.eff[b.id] = e
            succ[b.id] = s
        pred = {}
        for a, s in succ.items():
            for x in s:
                pred.setdefault(x, set()).add(a)
        work = [a for a in self.eff if self.eff[a]]
        while work:
            x = work.pop()
            for y in pred.get(x, ()):
                if not self.eff[x] <= self.eff[y]:
                    self.eff[y] |= self.eff[x]
                    work.append(y)
        self.succ = succ

    def reach(self, inst):
        c = self.__dict__.setdefault('_reach', {})
        if inst not in c:
            seen, work = {inst}, [inst]
            while work:
                for y in self.succ.get(work.pop(), ()):
                    if y not in seen and y in self.P.bodies:
                        seen.add(y)
                        work.append(y)
            c[inst] = seen
        return c[inst]

    def weight(self, inst):
        """Basic blocks a call can reach."""
        return sum(len(self.P.bodies[x].blocks) for x in self.reach(inst))

    def of(self, inst):
        return self.eff.get(inst, set())


def havoc_args(E, st, c, R=None):
    """Forget everything a call may change through its arguments."""
    from ..models import mutex_data
    for a, ty in zip(c.args, c.argtys):
        if ty is None:
            continue
        t = E.T[ty]
        if t['k'] == 'closure' or (t['k'] == 'ref' and E.T[t['e']]['k'] == 'closure'):
            continue
        if t['k'] not in ('ref', 'ptr') or not t.get('mut'):
            continue
        if a[0] == 'sl':
            E.put(st, a[1], (), TOP, None)
            continue
        if a[0] != 'ref':
            continue
        v = E.getp(st, E.rcell(st, a[1]), a[2], None, a[1], ())
        gs = guards_in(v)
        if EN.contains_guard(E, t['e']):
            for g in gs:
                ety = E.T[[p for p in g[1][2]][-1][2]]['args'][-1]
                d = mutex_data(E, g[1], ety)
                E.put(st, d[1], d[2], E.mk(fresh('hv'), ety), None)
        else:
            E.put(st, a[1], a[2], E.mk(fresh('hv'), t['e']), None)


class Summ:
    """Mixin: calls of functions of the crate without the effects in `keep`
    are replaced by an arbitrary result."""
    keep = frozenset()

    def setup(self, P, classify=classify, tydrop=None, key='eff'):
        c = P.__dict__.setdefault('_effects', {})
        if key not in c:
            c[key] = Effects(P, classify, tydrop)
        self.effects = c[key]
        self.summarised = {}

    def summarise(self, E, st, c):
        if c.destty is not None and E.T[c.destty].get('path') == 'std::io::Error':
            return None         # what an error says is kept
        inst = (c.callee or {}).get('inst')
        b = E.P.bodies.get(inst)
        if b is None or not b.local or b.kind != 'fn':
            return None
        if self.effects.of(inst) & self.keep:
            return None
        for ty in list(c.argtys) + [c.destty]:
            if ty is not None and self.has_guard(E, ty):
                return None
        self.summarised[b.path] = self.summarised.get(b.path, 0) + 1
        self.at_summary(E, st, c, self.effects.of(inst))
        havoc_args(E, st, c)
        return [(st, E.mk(fresh('sum', b.path), c.destty))]

    def at_summary(self, E, st, c, eff):
        pass

    def has_guard(self, E, ty, depth=0):
        t = E.T[ty]
        if depth > 5:
            return False
        if t.get('path', '').endswith('MutexGuard'):
            return True
        if t['k'] in ('struct', 'enum') and t['local']:
            return any(self.has_guard(E, f[1], depth + 1) for v in t['variants'] for f in v['fields'])
        if t['k'] in ('struct', 'enum'):
            return any(isinstance(a, int) and self.has_guard(E, a, depth + 1) for a in t.get('args', ()))
        if t['k'] == 'tuple':
            return any(self.has_guard(E, a, depth + 1) for a in t['e'])
        return False
