"""Shared plumbing of the property modules."""
from .. import lin as L
from ..bdd import B
from ..engine import (Engine, Plugin, St, tm, fresh, Anchor, Budget, UNIT, TRUE, FALSE, TOP, MAXI)
from .. import entry as EN
from ..models import as_slice, tag_of, usize, mutex_key, split_eq0, split_ge, okty, pointee


def fn(P, path, optional=False):
    b = P.fn(path)
    if b is None and not optional:
        raise Anchor('function ' + path)
    return b


def methods(P, impl_prefix):
    """Public methods of a type: path -> body."""
    return {b.path: b for b in P.bodies.values()
            if b.local and b.kind == 'fn' and b.path.startswith(impl_prefix + '::') and b.vis == 'pub' and not b.generic
            and b.path.count('::') == impl_prefix.count('::') + 1}


def drop_glue(P, path):
    """Drop glue of the local type with this path."""
    for b in P.bodies.values():
        if b.kind == 'shim' and b.path == 'std::ptr::drop_glue' and b.argc:
            t = P.T[b.locals[1][0]]
            e = t.get('e')
            if e is not None and P.T[e].get('path') == path:
                return b
    raise Anchor('drop glue of ' + path)


def writer_cell(E, R, guard='sys::terminal::TerminalWriteGuard'):
    """(data cell, type) of the mutex whose guard the type `guard` holds."""
    gt = EN.local_ty(E, guard)
    if gt is None:
        raise Anchor('type ' + guard)
    for nm, fty in E.T[gt]['variants'][0]['fields']:
        if E.T[fty].get('path', '').endswith('MutexGuard'):
            m = EN.mutex_for(R, fty)
            from ..models import mutex_data
            ety = E.T[fty]['args'][-1]
            return mutex_data(E, m, ety), ety
    raise Anchor('mutex guard in ' + guard)


def field_of_type(E, ty, pred, what):
    """The unique field of struct ty whose type satisfies pred -> (index, type)."""
    fs = E.T[ty]['variants'][0]['fields']
    l = [(i, f[1]) for i, f in enumerate(fs) if pred(E.T[f[1]])]
    if len(l) != 1:
        raise Anchor('%s in %s: %d candidates' % (what, E.tname(ty), len(l)))
    return l[0]


def is_vec_u8(E):
    def p(t):
        return t.get('path', '').endswith('vec::Vec') and E.T[t['args'][0]]['s'] == 'u8'
    return p


def short(body):
    return body.path


def frames(E):
    return ['%s (%s)' % (b.path, l) for b, l in E.frames]


def where(E):
    """Innermost function of the crate on the stack."""
    for b, l in reversed(E.frames):
        if b.local:
            p = b.path
            return p.split('::{closure')[0]
    return '?'


def loc(E):
    for b, l in reversed(E.frames):
        if b.local:
            return l
    return '?'


def is_ok(E, v):
    """Variant name of a Result / Option return value, or None."""
    if v[0] != 'en':
        return None
    if all(n <= 1 for n in v[2]):
        i = sum(n << b for b, n in enumerate(v[2]))
        return E.T[v[1]]['variants'][i]['name']
    return None


def ret_split(E, st, v):
    """[(variant name, state)] for an enum return value."""
    if v[0] != 'en':
        return [(None, st)]
    k = is_ok(E, v)
    if k:
        return [(k, st)]
    return [(n, s) for n, i, s in E.split_variant(st, v)]
