"""Entry states: symbolic arguments for a function of the crate, with guards
bound to the mutexes of one symbolic terminal (and screen)."""
from . import lin as L
from .engine import Engine, St, tm, fresh, Anchor, UNIT


class Roots:
    """Symbolic objects shared by all arguments of one entry."""

    def __init__(self, E, st, screen=False):
        self.E, self.st = E, st
        P = E.P
        self.term_ty = ty_path(E, 'sys_terminal')
        self.screen_ty = ty_path(E, 'sys_screen')
        if screen:
            c = ('D', tm('deref', tm('arg', 'screen')))
            E.celltys.setdefault(c, self.screen_ty)
            self.screen = ('ref', c, ())
            i = E.fix(self.screen_ty, 'term')
            self.term = ('ref', c, (('f', i, self.term_ty),))
        else:
            c = ('D', tm('deref', tm('arg', 'term')))
            E.celltys.setdefault(c, self.term_ty)
            self.term = ('ref', c, ())
            self.screen = None

    def field(self, ref, ty, name):
        E = self.E
        i = E.fix(ty, name)
        fty = E.T[ty]['variants'][0]['fields'][i][1]
        return ('ref', ref[1], ref[2] + (('f', i, fty),)), fty


NAMES = {
    'sys_terminal': ['sys::terminal::Terminal', 'unix::terminal::Terminal', 'windows::terminal::Terminal'],
    'sys_screen': ['sys::screen::Screen', 'unix::screen::Screen', 'windows::screen::Screen'],
}


def local_ty(E, path):
    for i, t in enumerate(E.T):
        if t.get('local') and t.get('path') == path and t['k'] in ('struct', 'enum'):
            return i
    return None


def ty_path(E, key):
    for p in NAMES[key]:
        t = local_ty(E, p)
        if t is not None:
            return t
    raise Anchor('type ' + key)


def is_local_struct(E, ty):
    t = E.T[ty]
    return t['k'] == 'struct' and t['local']


def contains_guard(E, ty, depth=0):
    t = E.T[ty]
    if depth > 4:
        return False
    if t.get('path', '').endswith('MutexGuard'):
        return True
    if t['k'] in ('struct',) and t['local']:
        return any(contains_guard(E, f[1], depth + 1) for f in t['variants'][0]['fields'])
    return False


def build(R, ty, term):
    """Symbolic value of type ty for an entry argument."""
    E, st = R.E, R.st
    t = E.T[ty]
    k = t['k']
    if k in ('ref', 'ptr'):
        e = t['e']
        et = E.T[e]
        p = et.get('path')
        if e == R.term_ty:
            return R.term
        if R.screen_ty is not None and e == R.screen_ty and R.screen:
            return R.screen
        if et['k'] == 'struct' and et['local']:
            fs = et['variants'][0]['fields']
            if len(fs) == 1 and fs[0][1] == R.term_ty:
                # public wrapper around the system terminal
                c = ('D', tm('deref', term))
                E.celltys.setdefault(c, e)
                R.term = ('ref', c, (('f', 0, R.term_ty),))
                return ('ref', c, ())
            if len(fs) == 1 and fs[0][1] == R.screen_ty:
                c = ('D', tm('deref', term))
                E.celltys.setdefault(c, e)
                R.screen = ('ref', c, (('f', 0, R.screen_ty),))
                R.term, _ = R.field(R.screen, R.screen_ty, 'term')
                return ('ref', c, ())
            if contains_guard(E, e):
                c = ('D', tm('deref', term))
                E.celltys.setdefault(c, e)
                st.mem[c] = build(R, e, tm('deref', term))
                return ('ref', c, ())
        return E.mk(term, ty)
    if k == 'struct' and t['local'] and contains_guard(E, ty):
        out = []
        for i, (nm, fty) in enumerate(t['variants'][0]['fields']):
            ft = E.T[fty]
            if ft.get('path', '').endswith('MutexGuard'):
                out.append(('guard', mutex_for(R, fty)))
            else:
                out.append(build(R, fty, tm('fld', term, 0, i)))
        return ('st', tuple(out))
    return E.mk(term, ty)


def mutex_for(R, gty):
    """The mutex (of the symbolic terminal or screen) a guard type belongs to."""
    E = R.E
    inner = E.T[gty]['args'][-1]
    for root, rty in ((R.term, R.term_ty), (R.screen, R.screen_ty)):
        if root is None:
            continue
        for i, (nm, fty) in enumerate(E.T[rty]['variants'][0]['fields']):
            ft = E.T[fty]
            if ft.get('path', '').endswith('sync::Mutex') or ft.get('path', '').endswith('Mutex'):
                if ft['args'][-1] == inner:
                    return ('ref', root[1], root[2] + (('f', i, fty),))
    raise Anchor('mutex of ' + E.tname(gty))


def needs_screen(E, ty, depth=0):
    t = E.T[ty]
    if depth > 4:
        return False
    if t['k'] == 'ref':
        return needs_screen(E, t['e'], depth + 1)
    if t['k'] == 'struct' and t['local']:
        if 'screen' in t['path'].lower():
            return True
    return False


def entry(E, body, names=None, over=None):
    """-> (state, args)"""
    st = St()
    tys = [body.locals[i + 1][0] for i in range(body.argc)]
    R = Roots(E, st, any(needs_screen(E, t) for t in tys))
    args = []
    for i, ty in enumerate(tys):
        nm = body.locals[i + 1][1] or ('a%d' % i)
        a = None
        if over and i in over:
            a = over[i](E, st, R)
        if a is None:
            a = build(R, ty, tm('arg', nm))
        args.append(a)
    return st, args, R
