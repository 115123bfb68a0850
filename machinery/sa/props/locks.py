"""Lock acquisition model shared by several checks: outcome of every mutex
operation, guards alive on the current path, release on drop."""
from .common import *

G = 'std::sync::MutexGuard'


def guards_in(v, acc=None):
    """Guards contained in a value."""
    acc = [] if acc is None else acc
    if v[0] == 'guard':
        acc.append(v)
    elif v[0] == 'st':
        for x in v[1]:
            guards_in(x, acc)
    elif v[0] == 'en':
        for _, fs in v[3]:
            for x in fs:
                guards_in(x, acc)
    return acc


class Typestate(Plugin):
    """Ghost constants that partition the states."""
    names = ()

    def key(self, st):
        return tuple(st.mem.get(('G', n)) for n in self.names)

    def get(self, st, n):
        v = st.mem.get(('G', n))
        return v[1] if v is not None else None

    def set(self, st, n, x):
        st.mem[('G', n)] = ('g', x)


class Locks(Typestate):
    """held: sorted tuple of mutex names with live guards; out: outcome per mutex."""
    names = ('held', 'out')
    split = True         # explore poisoned and contended outcomes
    only_ok = False      # assume free, unpoisoned locks

    def __init__(self, ctx):
        self.ctx = ctx
        self.mnames = {}
        self.acquired = 0

    def init(self, st, held=()):
        self.set(st, 'held', tuple(sorted(held)))
        self.set(st, 'out', ())

    def name(self, E, m):
        """Stable name of a mutex: the field that holds it."""
        if m[0] != 'ref' or not m[2]:
            return '?'
        k = mutex_key(m)
        if k not in self.mnames:
            p = m[2]
            nm = None
            for i in range(len(p) - 1, -1, -1):
                if p[i][0] == 'f' and E.T[p[i][2]].get('path', '').endswith('Mutex'):
                    nm = E.tname(E.T[p[i][2]]['args'][-1])
                    break
            self.mnames[k] = (nm or '?')
        return self.mnames[k]

    def on_acquire(self, E, st, name, c, try_):
        pass

    def on_release(self, E, st, name, l):
        pass

    def call(self, E, st, c):
        if c.path in ('std::sync::Mutex::<T>::lock', 'std::sync::Mutex::<T>::try_lock'):
            m = c.args[0]
            if m[0] != 'ref':
                raise Anchor('mutex of the lock call in ' + where(E))
            nm = self.name(E, m)
            try_ = c.path.endswith('try_lock')
            self.acquired += 1
            self.on_acquire(E, st, nm, c, try_)
            g = ('guard', m)
            out = []
            prev = dict(self.get(st, 'out'))
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]

            def add(o, val, hold):
                if nm in prev and prev[nm] != o and o != 'held' and prev[nm] != 'held':
                    return
                s = st.copy()
                if hold:
                    self.set(s, 'held', tuple(sorted(self.get(s, 'held') + (nm,))))
                d = dict(prev)
                d[nm] = o
                self.set(s, 'out', tuple(sorted(d.items())) if self.split else ())
                out.append((s, E.variant(c.destty, val[0], val[1])))
            add('ok', ('Ok', (g,)), True)
            if self.only_ok:
                pass
            elif not try_:
                add('poisoned', ('Err', (('st', (g,)),)), True)
            else:
                add('poisoned', ('Err', (E.variant(ety, 'Poisoned', (('st', (g,)),)),)), True)
                add('held', ('Err', (E.variant(ety, 'WouldBlock', ()),)), False)
            return out
        return None

    def on_drop(self, E, st, ty, cell, path, val, l):
        if E.T[ty].get('path') == G:
            if val[0] == 'guard':
                nm = self.name(E, val[1])
                h = list(self.get(st, 'held'))
                self.on_release(E, st, nm, l)
                if nm in h:
                    h.remove(nm)
                    self.set(st, 'held', tuple(h))
            else:
                raise Anchor('unknown guard dropped in ' + where(E))
