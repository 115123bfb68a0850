"""Models of the functions outside the analysed crate (std containers, nix, libc,
terminfo, smallstr, ...).  A model maps (engine, state, call) to a list of
(state, result); returning None falls through to inlining or havoc."""
import re
from . import lin as L
from .bdd import B
from .engine import (eq_atom, tm, fresh, UNIT, TRUE, FALSE, TOP, MAXI, St)

TABLE = {}
REGEX = []
DROPS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            TABLE[p] = f
        return f
    return deco


def rx(p):
    def deco(f):
        REGEX.append((re.compile(p), f))
        return f
    return deco


def I(E, l, ty):
    return ('i', l, ty)


def usize(E):
    t = getattr(E, '_usize', None)
    if t is None:
        t = E.find_ty(lambda t: t['s'] == 'usize')
        E._usize = t
    return t


def pointee(E, ty):
    t = E.T[ty]
    return t.get('e') if t['k'] in ('ref', 'ptr') else None


def site(c):
    return (c.body, c.loc)


def rd(E, st, a, ty=None):
    """Value behind a reference argument."""
    return E.deref(st, a, pointee(E, ty) if ty is not None else None)


def wr(E, st, a, val, c, ty=None):
    if a[0] == 'ref':
        E.store_at(st, a[1], a[2], val, ty, site(c))


def seqof(E, st, a, ty=None):
    v = rd(E, st, a, ty)
    if v[0] == 'seq':
        return v
    if v[0] == 'st':
        return ('seq', L.const(len(v[1])), None, None)
    if v[0] == 'sym':
        return E.mkseq(v[1])
    t = fresh('seq')
    return ('seq', E.lensym(t), None, None)


def as_slice(E, st, a, ty=None):
    """('sl', ...) for a slice/str/Vec/array/SmallString reference."""
    if a[0] == 'sl':
        return a
    if a[0] == 'ref':
        v = seqof(E, st, a, ty)
        return ('sl', a[1], a[2], L.const(0), v[1])
    if a[0] == 'sym':
        cell = ('D', tm('deref', a[1]))
        return ('sl', cell, (), L.const(0), E.lensym(tm('len', cell[1])))
    t = fresh('slice')
    cell = ('D', t)
    return ('sl', cell, (), L.const(0), E.lensym(tm('len', t)))


def tag_of(E, st, s):
    """Stream position of the first byte of a slice value, or None."""
    v = E.getp(st, E.rcell(st, s[1]), s[2], None, s[1], ())
    if v[0] == 'seq' and v[3] is not None:
        return L.add(v[3], s[3])
    return None


def split_ge(E, st, l):
    """(state with l >= 0 or None, state with l < 0 or None)"""
    if st.ent_ge(l):
        return st, None
    a, b = st.copy(), st
    a = a if a.add_ge(l) else None
    b = b if b.add_ge(L.add(L.scale(l, -1), L.const(-1))) else None
    return a, b


def split_eq0(E, st, l):
    if st.ent_eq(l):
        return st, None
    a, b = st.copy(), st
    a = a if a.add_eq(l) else None
    b = b if b.add_ne(l) else None
    return a, b


def seqhook(E, st, op, cell, path, **kw):
    for p in E.plugins:
        f = getattr(p, 'seq', None)
        if f:
            r = f(E, st, op, cell, path, kw)
            if r is not None:
                return r
    return None


def setseq(E, st, a, v, c, op, **kw):
    r = seqhook(E, st, op, a[1], a[2], old=seqof(E, st, a), new=v, call=c, **kw)
    if r is not None:
        v = r
    if a[0] == 'ref':
        E.put(st, a[1], a[2], v, None)


# ---------------------------------------------------------------- panics
@model('std::panicking::panic', 'std::panicking::panic_fmt', 'std::panicking::panic_display', 'std::option::expect_failed', 'std::option::unwrap_failed',
       'std::result::unwrap_failed', 'std::panicking::unreachable_display', 'std::rt::panic_fmt', 'std::panicking::panic_explicit',
       'std::rt::begin_panic', 'std::process::abort', 'std::process::exit', 'std::slice::index::slice_index_fail',
       'std::panicking::panic_nounwind', 'std::panicking::assert_failed')
def m_panic(E, st, c):
    E.panic(st, 'panic:' + c.path.split('::')[-1], c.loc)
    return []


@rx(r'^(std|core)::(panicking|slice::index::slice_|str::slice_error|num::.*panic)')
def m_panic2(E, st, c):
    if E.tk(c.destty) == 'never':
        E.panic(st, 'panic:' + c.path.split('::')[-1], c.loc)
        return []
    return None


def may_panic(E, st, cond, kind, c):
    """cond (BDD) must hold, else panic.  Returns the surviving state."""
    bad = E.assume(st.copy(), B.lnot(cond)) if cond != 1 else None
    if bad is not None:
        E.panic(bad, kind, c.loc)
    return E.assume(st, cond)


def need_ge(E, st, l, kind, c):
    a, b = split_ge(E, st, l)
    if b is not None:
        E.panic(b, kind, c.loc)
    return a


# ---------------------------------------------------------------- Vec
@model('std::vec::Vec::<T>::new', '<std::vec::Vec<T> as std::default::Default>::default', 'std::string::String::new')
def vec_new(E, st, c):
    return [(st, ('seq', L.const(0), L.const(0), L.var(L.sym(fresh('vecbase')))))]


@model('std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::with_capacity_in', 'std::string::String::with_capacity')
def vec_cap(E, st, c):
    cap = E.lensym(fresh('cap'))
    st.add_ge(L.sub(cap, E.to_lin(st, c.args[0], c.argtys[0])))
    return [(st, ('seq', L.const(0), cap, L.var(L.sym(fresh('vecbase')))))]


@model('std::vec::from_elem')
def vec_from_elem(E, st, c):
    n = E.to_lin(st, c.args[1], c.argtys[1])
    v = ('seq', n, E.lensym(fresh('cap')), L.var(L.sym(fresh('vecbase'))))
    r = seqhook(E, st, 'from_elem', None, None, new=v, elem=c.args[0], call=c)
    return [(st, r if r is not None else v)]


@model('std::vec::Vec::<T, A>::len', 'std::slice::<impl [T]>::len', 'std::str::<impl str>::len', 'std::string::String::len',
       'smallstr::SmallString::<A>::len')
def seq_len(E, st, c):
    return [(st, ('i', as_slice(E, st, c.args[0], c.argtys[0])[4], c.destty))]


@model('std::vec::Vec::<T, A>::is_empty', 'std::slice::<impl [T]>::is_empty', 'std::str::<impl str>::is_empty', 'std::string::String::is_empty',
       'smallstr::SmallString::<A>::is_empty')
def seq_is_empty(E, st, c):
    n = as_slice(E, st, c.args[0], c.argtys[0])[4]
    return [(st, ('b', E.eq_node(st, n)))]


@model('std::vec::Vec::<T, A>::capacity')
def vec_capacity(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    cap = v[2]
    if cap is None:
        cap = E.lensym(fresh('cap'))
    st.add_ge(L.sub(cap, v[1]))
    return [(st, ('i', cap, c.destty))]


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::str::<impl str>::as_bytes',
       '<std::string::String as std::ops::Deref>::deref', '<smallstr::SmallString<A> as std::ops::Deref>::deref',
       '<smallstr::SmallString<A> as std::convert::AsRef<str>>::as_ref', '<smallstr::SmallString<A> as std::ops::DerefMut>::deref_mut',
       'std::string::String::as_str', 'std::str::<impl str>::as_bytes_mut', 'std::str::from_utf8_unchecked', 'smallstr::SmallString::<A>::as_str',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow',
       'std::string::String::as_bytes', 'smallstr::SmallString::<A>::as_bytes', '<str as std::convert::AsRef<str>>::as_ref',
       '<str as std::convert::AsRef<[u8]>>::as_ref', '<[T] as std::convert::AsRef<[T]>>::as_ref', 'std::str::<impl std::convert::AsRef<[u8]> for str>::as_ref',
       'std::array::<impl [T; N]>::as_slice')
def seq_deref(E, st, c):
    for p in E.plugins:
        f = getattr(p, 'seq_deref', None)
        if f:
            r = f(E, st, c)
            if r is not None:
                return r
    return [(st, as_slice(E, st, c.args[0], c.argtys[0]))]


@model('std::vec::Vec::<T, A>::set_len')
def vec_set_len(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    setseq(E, st, c.args[0], ('seq', n, v[2], v[3]), c, 'set_len', n=n)
    return [(st, UNIT)]


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact')
def vec_reserve(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    cap = E.lensym(fresh('cap'))
    st.add_ge(L.sub(cap, L.add(v[1], n)))
    if v[2] is not None:
        st.add_ge(L.sub(cap, v[2]))
    setseq(E, st, c.args[0], ('seq', v[1], cap, v[3]), c, 'reserve')
    return [(st, UNIT)]


@model('std::vec::Vec::<T, A>::shrink_to_fit')
def vec_shrink(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    cap = E.lensym(fresh('cap'))
    st.add_ge(L.sub(cap, v[1]))
    setseq(E, st, c.args[0], ('seq', v[1], cap, v[3]), c, 'reserve')
    return [(st, UNIT)]


def grow(E, st, v, n):
    """Sequence value after appending n elements."""
    cap = E.lensym(fresh('cap'))
    st.add_ge(L.sub(cap, L.add(v[1], n)))
    if v[2] is not None:
        st.add_ge(L.sub(cap, v[2]))
        # no reallocation when the capacity suffices
        if st.ent_ge(L.sub(v[2], L.add(v[1], n))):
            cap = v[2]
    return ('seq', L.add(v[1], n), cap, v[3])


@model('<std::vec::Vec<T, A> as std::iter::Extend<&\'a T>>::extend', 'std::vec::Vec::<T, A>::extend_from_slice',
       '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', 'std::string::String::push_str')
def vec_extend(E, st, c):
    a = c.args[1]
    if a[0] == 'it' and a[1] == 'slice':
        src = a[2]
    elif a[0] in ('sl', 'ref'):
        src = as_slice(E, st, a, c.argtys[1])
    elif a[0] == 'it' and a[1] == 'copied' and a[2][0] == 'it' and a[2][1] == 'slice':
        src = a[2][2]
    else:
        src = None
    v = seqof(E, st, c.args[0], c.argtys[0])
    n = src[4] if src is not None else E.lensym(fresh('extlen'))
    setseq(E, st, c.args[0], grow(E, st, v, n), c, 'extend', src=src, n=n)
    return [(st, UNIT)]


@model('std::vec::Vec::<T, A>::push')
def vec_push(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    setseq(E, st, c.args[0], grow(E, st, v, L.const(1)), c, 'push', elem=c.args[1])
    return [(st, UNIT)]


@model('std::vec::Vec::<T, A>::pop')
def vec_pop(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    some, none = split_ge(E, st, L.add(v[1], L.const(-1)))
    out = []
    if none is not None:
        out.append((none, E.variant(c.destty, 'None', ())))
    if some is not None:
        ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Some')]['fields'][0][1]
        el = E.mk(fresh('elem'), ety)
        setseq(E, some, c.args[0], ('seq', L.add(v[1], L.const(-1)), v[2], v[3]), c, 'pop')
        out.append((some, E.some(c.destty, el)))
    return out


@model('std::vec::Vec::<T, A>::insert')
def vec_insert(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    st = need_ge(E, st, L.sub(v[1], n), 'vec-insert-index', c)
    if st is None:
        return []
    setseq(E, st, c.args[0], grow(E, st, v, L.const(1)), c, 'insert', at=n, elem=c.args[2])
    return [(st, UNIT)]


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vec_remove(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    st = need_ge(E, st, L.sub(L.sub(v[1], n), L.const(1)), 'vec-remove-index', c)
    if st is None:
        return []
    setseq(E, st, c.args[0], ('seq', L.add(v[1], L.const(-1)), v[2], v[3]), c, 'swap_remove' if 'swap' in c.path else 'remove', at=n)
    return [(st, E.mk(fresh('elem'), c.destty))]


@model('std::vec::Vec::<T, A>::resize')
def vec_resize(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    grow_, cut = split_ge(E, st, L.sub(n, v[1]))
    out = []
    if grow_ is not None:
        new = grow(E, grow_, v, L.sub(n, v[1]))
        setseq(E, grow_, c.args[0], ('seq', n) + new[2:], c, 'resize', elem=c.args[2], n=n)
        out.append((grow_, UNIT))
    if cut is not None:
        setseq(E, cut, c.args[0], ('seq', n, v[2], v[3]), c, 'truncate', n=n)
        out.append((cut, UNIT))
    return out


@model('std::vec::Vec::<T, A>::clear', 'std::vec::Vec::<T, A>::truncate')
def vec_clear(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    if c.path.endswith('truncate'):
        n = E.to_lin(st, c.args[1], c.argtys[1])
        lt, ge = split_ge(E, st, L.sub(L.sub(v[1], n), L.const(1)))
        out = []
        if lt is not None:
            setseq(E, lt, c.args[0], ('seq', n, v[2], v[3]), c, 'truncate', n=n)
            out.append((lt, UNIT))
        if ge is not None:
            out.append((ge, UNIT))
        return out
    setseq(E, st, c.args[0], ('seq', L.const(0), v[2], v[3]), c, 'truncate', n=L.const(0))
    return [(st, UNIT)]


def rng(E, st, v, ty, n):
    """Bounds of a range value over a sequence of length n -> (start, end) or None."""
    t = E.T[ty]
    p = t.get('path', '')
    if v[0] == 'sym' and t['k'] == 'struct':
        v = E.expand(v)
    us = usize(E)

    def fl(i):
        return E.to_lin(st, v[1][i], us)
    if p.endswith('RangeFull'):
        return L.const(0), n
    if p.endswith('RangeTo'):
        return L.const(0), fl(0)
    if p.endswith('RangeFrom'):
        return fl(0), n
    if p.endswith('RangeToInclusive'):
        return L.const(0), L.add(fl(0), L.const(1))
    if p.endswith('RangeInclusive'):
        return fl(0), L.add(fl(1), L.const(1))
    if p.endswith('ops::Range') or p.endswith('range::Range'):
        return fl(0), fl(1)
    return None


@model('std::vec::Vec::<T, A>::drain')
def vec_drain(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    r = rng(E, st, c.args[1], c.argtys[1], v[1])
    if r is None:
        return None
    lo, hi = r
    st = need_ge(E, st, L.sub(hi, lo), 'drain-range', c)
    if st is None:
        return []
    st = need_ge(E, st, L.sub(v[1], hi), 'drain-range', c)
    if st is None:
        return []
    n = L.sub(hi, lo)
    tag = v[3]
    if tag is not None and st.ent_eq(lo):
        tag = L.add(tag, n)
    new = ('seq', L.sub(v[1], n), v[2], tag)
    setseq(E, st, c.args[0], new, c, 'drain', lo=lo, hi=hi)
    return [(st, ('sym', fresh('drain'), c.destty))]


@model('std::vec::Vec::<T, A>::split_off')
def vec_split_off(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    st = need_ge(E, st, L.sub(v[1], n), 'split-off', c)
    if st is None:
        return []
    setseq(E, st, c.args[0], ('seq', n, v[2], v[3]), c, 'truncate', n=n)
    return [(st, ('seq', L.sub(v[1], n), None, L.add(v[3], n) if v[3] is not None else None))]


@rx(r'^(<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index|std::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index|'
    r'std::str::traits::<impl std::ops::Index(Mut)?<I> for str>::index|std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index|'
    r'<std::string::String as std::ops::Index(Mut)?<I>>::index)')
def seq_index(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    ity = c.argtys[1]
    isstr = 'for str' in c.path or 'String' in c.path
    if E.tk(ity) == 'int':
        ix = E.to_lin(st, c.args[1], ity)
        st = need_ge(E, st, L.sub(L.sub(s[4], ix), L.const(1)), 'index', c)
        if st is None:
            return []
        st = need_ge(E, st, ix, 'index', c)
        if st is None:
            return []
        ety = pointee(E, c.destty)
        return [(st, ('ref', s[1], E.index_path(s[2] + (('sub', s[3], s[4]),), ix, ety)))]
    r = rng(E, st, c.args[1], ity, s[4])
    if r is None:
        return None
    lo, hi = r
    for l in (lo, L.sub(hi, lo), L.sub(s[4], hi)):
        st = need_ge(E, st, l, 'slice-range', c)
        if st is None:
            return []
    if isstr:
        for x in (lo, hi):
            a = L.add(s[3], x)
            if st.ent_eq(x) or st.ent_eq(L.sub(x, s[4])) or is_boundary(E, st, s[1], s[2], a):
                continue
            E.panic(st.copy(), 'str-boundary', c.loc)
    return [(st, ('sl', s[1], s[2], L.add(s[3], lo), L.sub(hi, lo)))]


def is_boundary(E, st, cell, path, a):
    bs = E.__dict__.setdefault('boundaries', {})
    for b in bs.get((cell, path), ()):
        if st.ent_eq(L.sub(a, b)):
            return True
    return False


def add_boundary(E, cell, path, a):
    E.__dict__.setdefault('boundaries', {}).setdefault((cell, path), []).append(a)


@model('std::slice::<impl [T]>::get', 'std::slice::<impl [T]>::get_mut', 'std::str::<impl str>::get')
def slice_get(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    out = []
    ity = c.argtys[1]
    somety = E.T[c.destty]['variants'][E.vix(c.destty, 'Some')]['fields'][0][1]
    if E.tk(ity) == 'int':
        ix = E.to_lin(st, c.args[1], ity)
        ok, no = split_ge(E, st, L.sub(L.sub(s[4], ix), L.const(1)))
        if ok is not None:
            ety = pointee(E, somety)
            out.append((ok, E.some(c.destty, ('ref', s[1], E.index_path(s[2] + (('sub', s[3], s[4]),), ix, ety)))))
        if no is not None:
            out.append((no, E.variant(c.destty, 'None', ())))
        return out
    r = rng(E, st, c.args[1], ity, s[4])
    if r is None:
        return None
    lo, hi = r
    cur = st
    for l in (lo, L.sub(hi, lo), L.sub(s[4], hi)):
        ok, no = split_ge(E, cur, l)
        if no is not None:
            out.append((no, E.variant(c.destty, 'None', ())))
        cur = ok
        if cur is None:
            return out
    if 'str' in c.path and not all(cur.ent_eq(x) or cur.ent_eq(L.sub(x, s[4])) or is_boundary(E, cur, s[1], s[2], L.add(s[3], x)) for x in (lo, hi)):
        out.append((cur.copy(), E.variant(c.destty, 'None', ())))
    out.append((cur, E.some(c.destty, ('sl', s[1], s[2], L.add(s[3], lo), L.sub(hi, lo)))))
    return out


@model('std::slice::<impl [T]>::first', 'std::slice::<impl [T]>::last', 'std::slice::<impl [T]>::first_mut', 'std::slice::<impl [T]>::last_mut')
def slice_first(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    somety = E.T[c.destty]['variants'][E.vix(c.destty, 'Some')]['fields'][0][1]
    ok, no = split_ge(E, st, L.add(s[4], L.const(-1)))
    out = []
    if ok is not None:
        ix = L.const(0) if 'first' in c.path else L.add(s[4], L.const(-1))
        out.append((ok, E.some(c.destty, ('ref', s[1], E.index_path(s[2] + (('sub', s[3], s[4]),), ix, pointee(E, somety))))))
    if no is not None:
        out.append((no, E.variant(c.destty, 'None', ())))
    return out


@model('std::slice::<impl [T]>::split_at', 'std::slice::<impl [T]>::split_at_mut', 'std::str::<impl str>::split_at')
def slice_split_at(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    st = need_ge(E, st, L.sub(s[4], n), 'split-at', c)
    if st is None:
        return []
    if '<impl str>' in c.path and not (st.ent_eq(n) or st.ent_eq(L.sub(n, s[4])) or is_boundary(E, st, s[1], s[2], L.add(s[3], n))):
        E.panic(st.copy(), 'str-boundary', c.loc)
    return [(st, ('st', (('sl', s[1], s[2], s[3], n), ('sl', s[1], s[2], L.add(s[3], n), L.sub(s[4], n)))))]


@model('std::slice::<impl [T]>::copy_from_slice', 'std::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(E, st, c):
    d = as_slice(E, st, c.args[0], c.argtys[0])
    s = as_slice(E, st, c.args[1], c.argtys[1])
    eq, ne = split_eq0(E, st, L.sub(d[4], s[4]))
    if ne is not None:
        E.panic(ne, 'copy-from-slice-length', c.loc)
    if eq is None:
        return []
    seqhook(E, eq, 'copy', d[1], d[2], dst=d, src=s, call=c)
    return [(eq, UNIT)]


@model('std::slice::<impl [T]>::to_vec', '<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_owned',
       '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
       '<std::string::String as std::convert::From<&str>>::from', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned')
def to_vec(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    v = ('seq', s[4], E.lensym(fresh('cap')), tag_of(E, st, s))
    r = seqhook(E, st, 'to_vec', None, None, src=s, new=v, call=c)
    return [(st, r if r is not None else v)]


@model('std::slice::<impl [T]>::fill')
def slice_fill(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    for n in range(9):
        if st.ent_eq(L.sub(s[4], L.const(n))):
            for i in range(n):
                E.put(st, s[1], tuple(s[2]) + (('ix', L.add(s[3], L.const(i)), c.argtys[1]),), c.args[1], c.argtys[1])
            return [(st, UNIT)]
    seqhook(E, st, 'fill', s[1], s[2], dst=s, elem=c.args[1], call=c)
    return [(st, UNIT)]


@model('std::slice::<impl [T]>::swap', 'std::slice::<impl [T]>::reverse')
def slice_swap(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    if c.path.endswith('swap'):
        for k in (1, 2):
            st = need_ge(E, st, L.sub(L.sub(s[4], E.to_lin(st, c.args[k], c.argtys[k])), L.const(1)), 'index', c)
            if st is None:
                return []
    seqhook(E, st, 'permute', s[1], s[2], dst=s, call=c)
    return [(st, UNIT)]


@model('std::num::<impl u8>::is_ascii')
def u8_is_ascii(E, st, c):
    v = E.deref(st, c.args[0])
    t = E.T[c.argtys[0]]['e']
    return [(st, ('b', E.ge_node(st, L.sub(L.const(127), E.to_lin(st, v, t)))))]


@model('std::slice::ascii::<impl [u8]>::is_ascii', 'std::str::<impl str>::is_ascii')
def is_ascii(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    return [(st, ('b', B.var(('t', tm('is_ascii', s[1], s[2], s[3], s[4])))))]


@model('std::str::<impl str>::starts_with', 'std::slice::<impl [T]>::starts_with', 'std::str::<impl str>::ends_with', 'std::str::<impl str>::contains')
def starts_with(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    k = c.args[1]
    kk = (k[1], k[3], k[4]) if k[0] == 'sl' else k
    return [(st, ('b', B.var(('t', tm(c.path.split('::')[-1], s[1], s[2], s[3], s[4], kk)))))]


@rx(r'^(std|core)::str::(traits::)?<impl std::cmp::PartialEq(<str>)? for str>::(eq|ne)$')
def str_eq(E, st, c):
    a, b = as_slice(E, st, c.args[0], c.argtys[0]), as_slice(E, st, c.args[1], c.argtys[1])
    if a[1][0] == 'B' and b[1][0] == 'B':
        n = 1 if a[1][1] == b[1][1] else 0
    else:
        x, y = sorted(((a[1], a[2], a[3], a[4]), (b[1], b[2], b[3], b[4])), key=repr)
        n = B.var(('t', tm('streq', x, y)))
    return [(st, ('b', B.lnot(n) if c.path.endswith('ne') else n))]


@rx(r'(PartialEq<.*>|PartialEq)>?( for .*)?>?::(eq|ne)$')
def seq_eq(E, st, c):
    if c.callee.get('inst') in E.P.bodies:
        return None
    a, b = rd(E, st, c.args[0], c.argtys[0]), rd(E, st, c.args[1], c.argtys[1])
    if a[0] == 'ref' and b[0] == 'ref':      # references to references
        a, b = E.deref(st, a), E.deref(st, b)
    if a[0] in ('seq',) or b[0] == 'seq':
        x, y = sorted((str(a), str(b)))
        n = B.var(('t', tm('seqeq', x, y)))
        return [(st, ('b', B.lnot(n) if c.path.endswith('ne') else n))]
    n = E.equal(st, a, b, pointee(E, c.argtys[0]))
    return [(st, ('b', B.lnot(n) if c.path.endswith('ne') else n))]


# ---------------------------------------------------------------- slice iterators
@model('std::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter_mut', 'std::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       'std::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter', '<&\'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
       '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter')
def slice_iter(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    return [(st, ('it', 'slice', s, elem_of_iter(E, c.destty)))]


def elem_of_iter(E, ty):
    t = E.T[ty]
    a = [x for x in t.get('args', []) if x is not None]
    return a[0] if a else None


@model('std::slice::<impl [T]>::chunks_mut', 'std::slice::<impl [T]>::chunks', 'std::slice::<impl [T]>::chunks_exact', 'std::slice::<impl [T]>::chunks_exact_mut')
def slice_chunks(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    st = need_ge(E, st, L.add(n, L.const(-1)), 'chunks-zero', c)
    if st is None:
        return []
    if len(n[1]) == 1 and not n[0] and n[1][0][1] == 1:
        # rows of a matrix: row k starts at k * n
        l = st.norm(s[4]) if hasattr(st, 'norm') else s[4]
        if not l[0] and len(l[1]) == 1 and l[1][0][1] == 1:
            t = L.SYM[l[1][0][0]][0]
            if isinstance(t, tuple) and t[0] == 'mul' and n[1][0][0] in t[1:]:
                o = t[2] if t[1] == n[1][0][0] else t[1]
                return [(st, ('it', 'chunksx', s, n, L.var(o), L.const(0)))]
    return [(st, ('it', 'chunks', s, n, 'exact' if 'exact' in c.path else '', elem_of_iter(E, c.destty)))]


@model('std::slice::Iter::<\'a, T>::as_slice')
def iter_as_slice(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    if v[0] == 'it' and v[1] == 'slice':
        return [(st, v[2])]
    return None


@model('std::str::<impl str>::chars')
def str_chars(E, st, c):
    return [(st, ('it', 'chars', as_slice(E, st, c.args[0], c.argtys[0])))]


@model('std::str::<impl str>::char_indices')
def str_char_indices(E, st, c):
    return [(st, ('it', 'cidx', as_slice(E, st, c.args[0], c.argtys[0]), L.const(0)))]


@model('std::str::<impl str>::bytes')
def str_bytes(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    u8 = E.find_ty(lambda t: t['s'] == 'u8')
    return [(st, ('it', 'copied', ('it', 'slice', s, u8)))]


@model("std::str::CharIndices::<'a>::as_str", "std::str::Chars::<'a>::as_str")
def chars_as_str(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == 'it' and v[1] in ('chars', 'cidx'):
        return [(st, v[2])]
    return None


@model("std::str::CharIndices::<'a>::offset")
def chars_offset(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == 'it' and v[1] == 'cidx':
        return [(st, ('i', v[3], c.destty))]
    return None


def chty(E):
    return E.find_ty(lambda t: t['k'] == 'char')


def utf8len(E, st, l):
    """Length in bytes of a char value."""
    if not l[1]:
        return L.const(len(chr(l[0]).encode('utf-8', 'surrogatepass')))
    n = L.var(L.sym(tm('utf8len', l), 1, 4))
    return n


def it_next(E, st, it, ty=None):
    """-> [(st, item or None, it')]"""
    k = it[1]
    out = []
    if k == 'slice':
        s = it[2]
        ok, no = split_ge(E, st, L.add(s[4], L.const(-1)))
        if ok is not None:
            r = ('ref', s[1], E.index_path(s[2] + (('sub', s[3], s[4]),), L.const(0), it[3]))
            out.append((ok, r, ('it', 'slice', ('sl', s[1], s[2], L.add(s[3], L.const(1)), L.add(s[4], L.const(-1))), it[3])))
        if no is not None:
            out.append((no, None, it))
        return out
    if k == 'chunks':
        s, n = it[2], it[3]
        ok, no = split_ge(E, st, L.add(s[4], L.const(-1)))
        if ok is not None:
            full, part = split_ge(E, ok, L.sub(s[4], n))
            for x, ln in ((full, n), (part, s[4])):
                if x is None:
                    continue
                if x is part and it[4] == 'exact':
                    out.append((x, None, it))
                    continue
                out.append((x, ('sl', s[1], s[2], s[3], ln), ('it', 'chunks', ('sl', s[1], s[2], L.add(s[3], ln), L.sub(s[4], ln)), n, it[4], it[5])))
        if no is not None:
            out.append((no, None, it))
        return out
    if k == 'chunksx':
        s, n, rows, i = it[2:]
        ok, no = split_ge(E, st, L.sub(rows, L.add(i, L.const(1))))
        if ok is not None:
            out.append((ok, ('sl', s[1], s[2], L.add(s[3], L.mul(i, n)), n), it[:5] + (L.add(i, L.const(1)),)))
        if no is not None:
            out.append((no, None, it))
        return out
    if k in ('chars', 'cidx'):
        s = it[2]
        ok, no = split_ge(E, st, L.add(s[4], L.const(-1)))
        if ok is not None:
            ct = chty(E)
            ch = None
            for p in E.plugins:
                f = getattr(p, 'char_of', None)
                if f:
                    ch = f(E, ok, s)
                    if ch is not None:
                        break
            if ch is None:
                if s[1][0] == 'B' and not s[3][1]:
                    ch = ('i', L.const(ord(s[1][1][s[3][0]:].decode('utf-8', 'replace')[0])), ct)
                else:
                    ch = ('i', E.isym(tm('char', fresh('ch')), ct), ct)
            n = utf8len(E, ok, ch[1])
            if ok.add_ge(L.sub(s[4], n)):
                add_boundary(E, s[1], s[2], s[3])
                add_boundary(E, s[1], s[2], L.add(s[3], n))
                rest = ('sl', s[1], s[2], L.add(s[3], n), L.sub(s[4], n))
                if k == 'chars':
                    out.append((ok, ch, ('it', 'chars', rest)))
                elif ok.add_ge(it[3]):
                    out.append((ok, ('st', (('i', it[3], usize(E)), ch)), ('it', 'cidx', rest, L.add(it[3], n))))
        if no is not None:
            out.append((no, None, it))
        return out
    if k == 'copied':
        for s2, item, inner in it_next(E, st, it[2]):
            if item is not None and item[0] == 'ref':
                item = E.deref(s2, item)
            out.append((s2, item, ('it', 'copied', inner)))
        return out
    if k == 'enum':
        for s2, item, inner in it_next(E, st, it[2]):
            if item is None:
                out.append((s2, None, ('it', 'enum', inner, it[3])))
            else:
                out.append((s2, ('st', (('i', it[3], usize(E)), item)), ('it', 'enum', inner, L.add(it[3], L.const(1)))))
        return out
    if k == 'zip':
        for s2, a, ia in it_next(E, st, it[2]):
            if a is None:
                out.append((s2, None, ('it', 'zip', ia, it[3])))
                continue
            for s3, b, ib in it_next(E, s2, it[3]):
                out.append((s3, None if b is None else ('st', (a, b)), ('it', 'zip', ia, ib)))
        return out
    if k == 'take':
        ok, no = split_ge(E, st, L.add(it[3], L.const(-1)))
        if ok is not None:
            for s2, a, ia in it_next(E, ok, it[2]):
                out.append((s2, a, ('it', 'take', ia, L.add(it[3], L.const(-1)))))
        if no is not None:
            out.append((no, None, it))
        return out
    if k == 'range':
        lo, hi = it[2], it[3]
        ok, no = split_ge(E, st, L.sub(L.sub(hi, lo), L.const(1)))
        if ok is not None:
            out.append((ok, ('i', lo, it[4]), ('it', 'range', L.add(lo, L.const(1)), hi, it[4])))
        if no is not None:
            out.append((no, None, it))
        return out
    return None


@rx(r'^<?std::(slice::Iter|slice::IterMut|slice::ChunksMut|slice::Chunks|str::Chars|str::CharIndices|str::Bytes|iter::(adapters::)?(Zip|Enumerate|Copied|Cloned|Take|Skip)|iter::Rev).*::next$|'
    r'Iterator for std::(slice|str|iter)::.*::next$|<std::iter::(Zip|Enumerate|Copied|Cloned|Take|Skip)<.*> as std::iter::Iterator>::next$|<std::(slice|str)::[A-Za-z]+<.*> as std::iter::Iterator>::next$')
def any_next(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    if v[0] != 'it':
        return None
    r = it_next(E, st, v)
    if r is None:
        return None
    out = []
    for s, item, it in r:
        wr(E, s, c.args[0], it, c)
        out.append((s, E.variant(c.destty, 'None', ()) if item is None else E.some(c.destty, item)))
    return out


def is_range(E, ty):
    return ty is not None and E.T[ty].get('path', '').endswith('ops::Range')


@rx(r'^<?std::ops::(range::)?Range<.*::next$|<impl std::iter::Iterator for std::ops::Range<A>>::next$')
def range_next(E, st, c):
    pt = pointee(E, c.argtys[0])
    if not is_range(E, pt):
        return None
    v = rd(E, st, c.args[0], c.argtys[0])
    if v[0] == 'sym':
        v = E.expand(v)
    ity = E.T[pt]['args'][0]
    if E.tk(ity) != 'int':
        return None
    lo, hi = E.to_lin(st, v[1][0], ity), E.to_lin(st, v[1][1], ity)
    out = []
    ok, no = split_ge(E, st, L.sub(L.sub(hi, lo), L.const(1)))
    if ok is not None:
        a = c.args[0]
        if a[0] == 'ref':
            E.store_at(ok, a[1], a[2] + (('f', 0, ity),), ('i', L.add(lo, L.const(1)), ity), ity, site(c))
        out.append((ok, E.some(c.destty, ('i', lo, ity))))
    if no is not None:
        out.append((no, E.variant(c.destty, 'None', ())))
    return out


def as_it(E, st, v, ty):
    """Iterator value for an IntoIterator argument."""
    if v[0] == 'it':
        return v
    if is_range(E, ty):
        if v[0] == 'sym':
            v = E.expand(v)
        ity = E.T[ty]['args'][0]
        return ('it', 'range', E.to_lin(st, v[1][0], ity), E.to_lin(st, v[1][1], ity), ity)
    if v[0] == 'sl':
        t = E.T[ty]
        return ('it', 'slice', v, E.T[t['e']].get('e') if t['k'] == 'ref' else None)
    return None


@model('std::iter::Iterator::zip')
def it_zip(E, st, c):
    a, b = as_it(E, st, c.args[0], c.argtys[0]), as_it(E, st, c.args[1], c.argtys[1])
    if a is None or b is None:
        return None
    return [(st, ('it', 'zip', a, b))]


@model('std::iter::zip')
def it_zip2(E, st, c):
    return it_zip(E, st, c)


@model('std::iter::Iterator::enumerate')
def it_enum(E, st, c):
    a = as_it(E, st, c.args[0], c.argtys[0])
    return [(st, ('it', 'enum', a, L.const(0)))] if a is not None else None


@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def it_copied(E, st, c):
    a = as_it(E, st, c.args[0], c.argtys[0])
    return [(st, ('it', 'copied', a))] if a is not None else None


@model('std::iter::Iterator::skip')
def it_skip(E, st, c):
    a = as_it(E, st, c.args[0], c.argtys[0])
    n = E.to_lin(st, c.args[1], c.argtys[1])
    if a is None or n[1] or n[0] > 4:
        return None
    sts = [(st, a)]
    for _ in range(n[0]):
        sts = [(s2, it2) for s, it in sts for s2, item, it2 in it_next(E, s, it)]
    return sts


@model('std::iter::Iterator::take')
def it_take(E, st, c):
    a = as_it(E, st, c.args[0], c.argtys[0])
    return [(st, ('it', 'take', a, E.to_lin(st, c.args[1], c.argtys[1])))] if a is not None else None


TRY = {'Ok': 'Err', 'Some': 'None', 'Continue': 'Break'}


@rx(r'^<std::.*> as std::iter::Iterator>::(for_each|all|any|find|position|fold|try_fold|try_for_each)$|'
    r'^std::iter::Iterator::(for_each|all|any|find|position|fold|try_fold|try_for_each)$')
def slice_loop(E, st, c):
    """Loops over slices that the library writes with raw pointers."""
    op = c.path.split('::')[-1]
    if op.startswith('try_') and not any(v['name'] in TRY for v in E.T[c.destty].get('variants', ())):
        return None
    by_ref = op not in ('for_each', 'fold')
    it = rd(E, st, c.args[0], c.argtys[0]) if by_ref else c.args[0]
    if it[0] != 'it':
        return None
    f, fty = c.args[-1], c.argtys[-1]
    start = [f]
    if op in ('fold', 'try_fold'):
        start.append(c.args[1])
    elif op == 'position':
        start.append(('i', L.const(0), usize(E)))

    def step(s, item, at):
        args = [item]
        if op == 'find':
            cell = at('item')
            s.mem[cell] = item
            args = [('ref', cell, ())]
        elif op in ('fold', 'try_fold'):
            args = [s.mem[at(2)], item]
        r = E.call_cell(s, at(1), fty, args, c.ctx + ('item',))
        if r is None:
            return [s], []
        on, off = [], []
        for s2, v in r:
            if op == 'for_each':
                on.append(s2)
            elif op == 'fold':
                s2.mem[at(2)] = v
                on.append(s2)
            elif op.startswith('try_'):
                if v[0] == 'sym':
                    v = E.expand(v)
                for name, i, s3 in E.split_variant(s2, v):
                    if name in TRY:
                        if op == 'try_fold':
                            s3.mem[at(2)] = E.payload(v, i, 0)
                        on.append(s3)
                    else:
                        off.append((s3, E.en_const(c.destty, i, tuple(E.payload(v, i, k) for k in range(len(E.T[c.destty]['variants'][i]['fields']))))))
            else:
                n = v[1] if v[0] == 'b' else B.var(('t', fresh('cb')))
                yes, no = E.assume(s2.copy(), n), E.assume(s2, B.lnot(n))
                stop, go = (no, yes) if op == 'all' else (yes, no)
                if stop is not None:
                    off.append((stop, {'all': ('b', 0), 'any': ('b', 1), 'find': item, 'position': s2.mem.get(at(2))}[op]))
                if go is not None:
                    if op == 'position':
                        go.mem[at(2)] = ('i', L.add(go.mem[at(2)][1], L.const(1)), usize(E))
                    on.append(go)
        return on, off
    done, leaves, at = E.iterate(st, it, c.ctx, step, start)
    out = []
    for s in done:
        v = {'for_each': UNIT, 'all': ('b', 1), 'any': ('b', 0), 'fold': s.mem.get(at(2))}.get(op)
        if op.startswith('try_'):
            go = [i for i, x in enumerate(E.T[c.destty]['variants']) if x['name'] in TRY][0]
            v = E.en_const(c.destty, go, (s.mem[at(2)] if op == 'try_fold' else UNIT,))
        out.append((s, E.variant(c.destty, 'None', ()) if v is None else v))
    for s, v in leaves:
        out.append((s, E.some(c.destty, v) if op in ('find', 'position') else v))
    for s, v in out:
        if by_ref:
            wr(E, s, c.args[0], s.mem[at(0)], c)
        for n in (0, 1, 2, 'item'):
            s.mem.pop(at(n), None)
    return out


@model('<I as std::iter::IntoIterator>::into_iter', 'std::iter::Iterator::by_ref')
def it_into(E, st, c):
    return [(st, c.args[0])]


@model('std::iter::Iterator::position', 'std::iter::Iterator::count')
def it_position(E, st, c):
    return None


# ---------------------------------------------------------------- str / char
@model('std::str::from_utf8')
def from_utf8(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    t = fresh('utf8err')
    okv = E.variant(c.destty, 'Ok', (s,))
    ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
    er = st.copy()
    valid = B.var(('t', tm('utf8ok', s[1], s[2], s[3], s[4], version(E, st, s[1], s[2]))))
    out = []
    known = utf8_known(E, st, s)
    if known is not False:
        a = E.assume(st, valid)
        if a is not None:
            out.append((a, okv))
    if known is not True:
        b = E.assume(er, B.lnot(valid))
        if b is not None and b.add_ge(L.add(s[4], L.const(-1))):
            v = ('sym', tm('utf8err', s[1], s[2], s[3], s[4], version(E, b, s[1], s[2])), ety)
            vu = L.var(L.sym(tm('valid_up_to', v[1]), 0, MAXI))
            b.add_ge(L.sub(L.sub(s[4], vu), L.const(1)))
            add_boundary(E, s[1], s[2], L.add(s[3], vu))
            # the prefix up to valid_up_to is valid
            E.__dict__.setdefault('utf8pre', []).append((s[1], s[2], s[3], vu))
            out.append((b, E.variant(c.destty, 'Err', (v,))))
    return out


def version(E, st, cell, path):
    v = E.getp(st, E.rcell(st, cell), path, None, cell, ())
    return v[3] if v[0] == 'seq' else None


def utf8_known(E, st, s):
    for cell, path, start, n in E.__dict__.get('utf8pre', ()):
        if cell == s[1] and path == s[2] and st.ent_eq(L.sub(start, s[3])) and st.ent_eq(L.sub(n, s[4])):
            return True
    if st.ent_eq(s[4]):
        return True
    return None


@model('std::str::Utf8Error::valid_up_to')
def valid_up_to(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    t = v[1] if v[0] == 'sym' else fresh('utf8err')
    return [(st, ('i', L.var(L.sym(tm('valid_up_to', t), 0, MAXI)), c.destty))]


@model('std::str::Utf8Error::error_len')
def error_len(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    t = v[1] if v[0] == 'sym' else fresh('utf8err')
    r = E.mk(tm('error_len', t), c.destty)
    # error_len is Some(1..=3) within the slice
    if t.parts[0] == 'utf8err':
        pl = E.payload(r, E.vix(c.destty, 'Some'), 0)
        if pl[0] == 'i':
            n = L.var(L.sym(tm('valid_up_to', t), 0, MAXI))
            st.add_ge(L.add(pl[1], L.const(-1)))
            st.add_ge(L.sub(L.const(3), pl[1]))
            st.add_ge(L.sub(L.sub(t.parts[4], n), pl[1]))
    return [(st, r)]


def fold_int(op, n, a, b=None):
    """Value of an integer method on constants (n bits, unsigned view)."""
    m = (1 << n) - 1
    if op == 'trailing_zeros':
        return n if a & m == 0 else ((a & m) & -(a & m)).bit_length() - 1
    if op == 'leading_zeros':
        return n - (a & m).bit_length()
    if op == 'trailing_ones':
        return fold_int('trailing_zeros', n, ~a)
    if op == 'count_ones':
        return bin(a & m).count('1')
    if op == 'is_power_of_two':
        return int(bin(a & m).count('1') == 1)
    if op == 'wrapping_neg':
        return -a & m
    if op == 'wrapping_add':
        return (a + b) & m
    if op == 'wrapping_sub':
        return (a - b) & m
    if op == 'wrapping_mul':
        return (a * b) & m
    if op == 'wrapping_shl':
        return (a << (b % n)) & m
    if op == 'wrapping_shr':
        return (a & m) >> (b % n)
    return None


@rx(r'^(std|core)::num::<impl (u8|u16|u32|u64|usize)>::(trailing_zeros|leading_zeros|trailing_ones|count_ones|is_power_of_two|wrapping_(neg|add|sub|mul|shl|shr))$')
def int_method(E, st, c):
    l = [E.to_lin(st, a, t) for a, t in zip(c.args, c.argtys)]
    if any(x[1] for x in l):
        return None
    r = fold_int(c.path.rsplit('::', 1)[1], E.bits_of(c.argtys[0]), *[x[0] for x in l])
    if r is None:
        return None
    if E.tk(c.destty) == 'bool':
        return [(st, ('b', r))]
    return [(st, ('i', L.const(r), c.destty))]


@model('std::char::methods::<impl char>::len_utf8', 'std::char::methods::len_utf8')
def len_utf8(E, st, c):
    l = E.to_lin(st, c.args[0], c.argtys[0])
    return [(st, ('i', utf8len(E, st, l), c.destty))]


@model('std::char::methods::<impl char>::encode_utf8')
def encode_utf8(E, st, c):
    l = E.to_lin(st, c.args[0], c.argtys[0])
    s = as_slice(E, st, c.args[1], c.argtys[1])
    n = utf8len(E, st, l)
    st = need_ge(E, st, L.sub(s[4], n), 'encode-utf8-space', c)
    if st is None:
        return []
    if s[1][0] == 'L' or not s[2]:
        E.put(st, s[1], s[2], ('seq', L.add(s[3], s[4]), None, L.sub(L.var(L.sym(tm('utf8base', l))), s[3])), None)
    return [(st, ('sl', s[1], s[2], s[3], n))]


@model('std::char::methods::<impl char>::is_control')
def is_control(E, st, c):
    l = E.to_lin(st, c.args[0], c.argtys[0])
    a = B.land(E.ge_node(st, l), E.ge_node(st, L.sub(L.const(31), l)))
    b = B.land(E.ge_node(st, L.sub(l, L.const(127))), E.ge_node(st, L.sub(L.const(159), l)))
    return [(st, ('b', B.lor(a, b)))]


# ---------------------------------------------------------------- SmallString
@model('<smallstr::SmallString<A> as std::convert::From<char>>::from')
def ss_from_char(E, st, c):
    l = E.to_lin(st, c.args[0], c.argtys[0])
    return [(st, ('seq', utf8len(E, st, l), None, L.var(L.sym(tm('chartext', l)))))]


@rx(r'^<smallstr::SmallString<A> as std::convert::From<&')
def ss_from_str(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    t = tag_of(E, st, s)
    return [(st, ('seq', s[4], None, t))]


@model('smallstr::SmallString::<A>::new')
def ss_new(E, st, c):
    return [(st, ('seq', L.const(0), None, L.var(L.sym(tm('emptytext')))))]


@model('smallstr::SmallString::<A>::push', 'smallstr::SmallString::<A>::push_str')
def ss_push(E, st, c):
    v = seqof(E, st, c.args[0], c.argtys[0])
    if c.path.endswith('push'):
        n = utf8len(E, st, E.to_lin(st, c.args[1], c.argtys[1]))
    else:
        n = as_slice(E, st, c.args[1], c.argtys[1])[4]
    setseq(E, st, c.args[0], ('seq', L.add(v[1], n), None, v[3] if st.ent_ge(L.add(v[1], L.const(-1))) else L.var(L.sym(fresh('text')))), c, 'sspush', elem=c.args[1])
    wr(E, st, c.args[0], rd(E, st, c.args[0]), c)
    return [(st, UNIT)]


@model('<smallstr::SmallString<A> as std::clone::Clone>::clone')
def ss_clone(E, st, c):
    return [(st, rd(E, st, c.args[0], c.argtys[0]))]


# ---------------------------------------------------------------- numbers
def opt_checked(op):
    def f(E, st, c):
        ty = c.argtys[0]
        x, y = E.to_lin(st, c.args[0], ty), E.to_lin(st, c.args[1], c.argtys[1])
        l = L.add(x, y) if op == 'add' else L.sub(x, y) if op == 'sub' else L.mul(x, y)
        lo, hi = E.irange(ty)
        ok = B.land(E.ge_node(st, L.sub(l, L.const(lo))), E.ge_node(st, L.sub(L.const(hi), l)))
        out = []
        b = E.assume(st.copy(), B.lnot(ok)) if ok != 1 else None
        a = E.assume(st, ok)
        if a is not None:
            out.append((a, E.some(c.destty, ('i', l, ty))))
        if b is not None:
            out.append((b, E.variant(c.destty, 'None', ())))
        return out
    return f


@rx(r'^std::num::<impl [ui]\w+>::(checked|saturating|wrapping|overflowing)_(add|sub|mul)$')
def num_ops(E, st, c):
    kind, op = re.search(r'(checked|saturating|wrapping|overflowing)_(add|sub|mul)$', c.path).groups()
    if kind == 'checked':
        return opt_checked(op)(E, st, c)
    ty = c.argtys[0]
    x, y = E.to_lin(st, c.args[0], ty), E.to_lin(st, c.args[1], c.argtys[1])
    l = L.add(x, y) if op == 'add' else L.sub(x, y) if op == 'sub' else L.mul(x, y)
    lo, hi = E.irange(ty)
    if kind == 'wrapping':
        return [(st, E.wrap(st, l, ty))]
    if kind == 'overflowing':
        return [(st, E.arith(st, op.capitalize() + 'WithOverflow', c.args[0], c.args[1], ty))]
    out = []
    under, rest = split_ge(E, st, L.sub(L.const(lo - 1), l))
    if under is not None:
        out.append((under, ('i', L.const(lo), ty)))
    if rest is not None:
        over, mid = split_ge(E, rest, L.sub(l, L.const(hi + 1)))
        if over is not None:
            out.append((over, ('i', L.const(hi), ty)))
        if mid is not None:
            out.append((mid, ('i', l, ty)))
    return out


@rx(r'^std::num::<impl [ui]\w+>::(max_value|min_value)$')
def max_value(E, st, c):
    lo, hi = E.irange(c.destty)
    return [(st, ('i', L.const(hi if c.path.endswith('max_value') else lo), c.destty))]


@rx(r'^std::cmp::(impls::<impl std::cmp::Ord for \w+>::|Ord::|)(min|max)$')
def minmax(E, st, c):
    ty = c.argtys[0]
    if E.tk(ty) not in ('int', 'char'):
        return None
    x, y = E.to_lin(st, c.args[0], ty), E.to_lin(st, c.args[1], ty)
    d = L.sub(y, x) if c.path.endswith('min') else L.sub(x, y)
    a, b = split_ge(E, st, d)
    out = []
    if a is not None:
        out.append((a, ('i', x, ty)))
    if b is not None:
        out.append((b, ('i', y, ty)))
    return out


# ---------------------------------------------------------------- mem / ptr / intrinsics
@model('std::mem::replace')
def mem_replace(E, st, c):
    old = rd(E, st, c.args[0], c.argtys[0])
    if old[0] == 'top':
        old = E.mk(fresh('old'), c.destty)
    wr(E, st, c.args[0], c.args[1], c, c.destty)
    return [(st, old)]


@model('std::mem::take')
def mem_take(E, st, c):
    old = rd(E, st, c.args[0], c.argtys[0])
    t = E.T[c.destty]
    if E.is_vec(c.destty):
        new = ('seq', L.const(0), L.const(0), L.var(L.sym(fresh('vecbase'))))
    elif t.get('path') == 'std::option::Option':
        new = E.variant(c.destty, 'None', ())
    elif t['k'] == 'bool':
        new = FALSE
    elif t['k'] == 'int':
        new = ('i', L.const(0), c.destty)
    else:
        d = E.P.by_path.get('<%s as std::default::Default>::default' % t['s'])
        if d:
            out = []
            for s, v in E.run(d[0], [], st, c.ctx):
                wr(E, s, c.args[0], v, c, c.destty)
                out.append((s, old))
            return out
        new = E.mk(fresh('default'), c.destty)
    wr(E, st, c.args[0], new, c, c.destty)
    return [(st, old)]


@model('std::mem::swap', 'std::ptr::swap')
def mem_swap(E, st, c):
    a, b = rd(E, st, c.args[0], c.argtys[0]), rd(E, st, c.args[1], c.argtys[1])
    ety = pointee(E, c.argtys[0])
    seqhook(E, st, 'swap', c.args[0][1] if c.args[0][0] == 'ref' else None, None, a=c.args[0], b=c.args[1], call=c)
    wr(E, st, c.args[0], b, c, ety)
    wr(E, st, c.args[1], a, c, ety)
    return [(st, UNIT)]


@model('std::mem::drop')
def mem_drop(E, st, c):
    return None


@model('std::mem::forget')
def mem_forget(E, st, c):
    return [(st, UNIT)]


@model('std::mem::zeroed', 'std::mem::MaybeUninit::<T>::zeroed')
def mem_zeroed(E, st, c):
    return [(st, zero(E, c.destty))]


def zero(E, ty):
    t = E.T[ty]
    if t['k'] in ('int', 'char'):
        return ('i', L.const(0), ty)
    if t['k'] == 'bool':
        return FALSE
    if t['k'] == 'struct' and t['local']:
        return ('st', tuple(zero(E, f[1]) for f in t['variants'][0]['fields']))
    return E.mk(fresh('zeroed'), ty)


@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def discriminant_value(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    if v[0] == 'en':
        E.en_valid(st, v)
        return [(st, ('dsc', v))]
    return None


@model('std::intrinsics::cold_path', 'std::intrinsics::assert_inhabited', 'std::intrinsics::assert_zero_valid', 'std::hint::assert_unchecked')
def nop(E, st, c):
    return [(st, UNIT)]


@model('std::intrinsics::likely', 'std::intrinsics::unlikely', 'std::hint::must_use', 'std::hint::black_box', 'std::convert::identity')
def ident(E, st, c):
    return [(st, c.args[0])]


# ---------------------------------------------------------------- sync
def guard_target(g):
    return g[1]


@model('<std::sync::MutexGuard<\'_, T> as std::ops::Deref>::deref', '<std::sync::MutexGuard<\'_, T> as std::ops::DerefMut>::deref_mut')
def guard_deref(E, st, c):
    a = c.args[0]
    v = rd(E, st, a, c.argtys[0])
    ety = pointee(E, c.destty)
    if v[0] == 'guard':
        r = mutex_data(E, v[1], ety)
        return [(st, r)]
    t = v[1] if v[0] == 'sym' else fresh('guard')
    cell = ('D', tm('mdata', t))
    E.celltys.setdefault(cell, ety)
    return [(st, ('ref', cell, ()))]


def mutex_key(m):
    """Identity of a mutex reference."""
    return (m[1], tuple((p[0], p[1]) for p in m[2])) if m[0] == 'ref' else m


def mutex_data(E, m, ety):
    key = tm('mutex', m[1], tuple(p[:2] for p in m[2])) if m[0] == 'ref' else tm('mutexv', m)
    cell = ('M', key)
    E.celltys.setdefault(cell, ety)
    return ('ref', cell, ())


@model('std::sync::Mutex::<T>::lock', 'std::sync::Mutex::<T>::try_lock')
def mutex_lock(E, st, c):
    m = c.args[0]
    if m[0] != 'ref':
        m = ('ref', ('D', fresh('mutex')), ())
    g = ('guard', m)
    out = []
    try_ = c.path.endswith('try_lock')
    a = st.copy()
    out.append((a, E.variant(c.destty, 'Ok', (g,))))
    ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
    if not try_:
        out.append((st.copy(), E.variant(c.destty, 'Err', (('st', (g,)),))))
    else:
        out.append((st.copy(), E.variant(c.destty, 'Err', (E.variant(ety, 'Poisoned', (('st', (g,)),)),))))
        out.append((st.copy(), E.variant(c.destty, 'Err', (E.variant(ety, 'WouldBlock', ()),))))
    return out


@model('std::sync::PoisonError::<T>::new')
def poison_new(E, st, c):
    return [(st, ('st', (c.args[0],)))]


@model('std::sync::PoisonError::<T>::into_inner')
def poison_into(E, st, c):
    v = c.args[0]
    if v[0] == 'st':
        return [(st, v[1][0])]
    return None


@model('std::sync::PoisonError::<T>::get_ref', 'std::sync::PoisonError::<T>::get_mut')
def poison_ref(E, st, c):
    a = c.args[0]
    if a[0] == 'ref':
        return [(st, ('ref', a[1], a[2] + (('f', 0, pointee(E, c.destty)),)))]
    return None


@model('std::sync::Mutex::<T>::new')
def mutex_new(E, st, c):
    return [(st, ('st', (c.args[0],)))]


@model('std::sync::Mutex::<T>::into_inner', 'std::sync::Mutex::<T>::get_mut')
def mutex_get_mut(E, st, c):
    return None


@model('std::sync::Mutex::<T>::is_poisoned')
def mutex_poisoned(E, st, c):
    return [(st, ('b', B.var(('t', fresh('poisoned')))))]


# ---------------------------------------------------------------- errors of the operating system
EINTR = 4


@model('std::io::Error::from_raw_os_error', 'std::io::error::<impl std::io::Error>::from_raw_os_error')
def from_os(E, st, c):
    v = c.args[0]
    return [(st, ('sym', tm('oserr', v if v[0] == 'bv' else ('i', E.to_lin(st, v, c.argtys[0]), c.argtys[0])), c.destty))]


def os_code(v):
    return v[1].parts[1] if v[0] == 'sym' and v[1].parts[0] == 'oserr' else None


@model('std::io::Error::raw_os_error', 'std::io::error::<impl std::io::Error>::raw_os_error')
def raw_os(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    n = os_code(v)
    return [(st, E.mk(tm('oscode', v), c.destty) if n is None else E.variant(c.destty, 'Some', (n,)))]


@model('std::io::Error::kind', 'std::io::error::<impl std::io::Error>::kind')
def err_kind(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    n = os_code(v)
    if n is None:
        return [(st, E.mk(tm('errkind', v), c.destty))]
    intr = E.cmp(st, 'Eq', n, ('i', L.const(EINTR), n[2]), n[2])
    a, b = E.assume(st.copy(), intr), E.assume(st, B.lnot(intr))
    out = [(a, E.variant(c.destty, 'Interrupted', ()))] if a is not None else []
    k = E.mk(tm('errkind', v), c.destty)
    b = b and E.assume(b, B.lnot(E.en_is(k, E.vix(c.destty, 'Interrupted'))))
    return out + ([(b, k)] if b is not None else [])


def not_interrupted(E, st, err):
    """This io::Error does not say that a call was interrupted."""
    if os_code(err) is not None:
        return st
    for ty in [i for i, t in enumerate(E.T) if t.get('path') == 'std::io::ErrorKind' and t.get('variants')]:
        k = E.mk(tm('errkind', err), ty)
        st = st and E.assume(st, B.lnot(E.en_is(k, E.vix(ty, 'Interrupted'))))
    for ty in [i for i, t in enumerate(E.T) if t.get('path') == 'std::option::Option' and E.T[t['args'][0]]['s'] == 'i32']:
        o = E.mk(tm('oscode', err), ty)
        n = E.payload(o, E.vix(ty, 'Some'), 0)
        if st is not None and n[0] == 'i':
            st = E.assume(st, B.lnot(B.land(E.en_is(o, E.vix(ty, 'Some')), E.eq_node(st, L.add(n[1], L.const(-EINTR))))))
    return st


# ---------------------------------------------------------------- io / fmt (opaque)
@rx(r'^(std|alloc)::(fmt|io::_eprint|io::_print|io::error|string)|^alloc::io::error|^<std::io::Error as|^<T as std::string::ToString>')
def opaque(E, st, c):
    if c.callee.get('inst') in E.P.bodies:
        return None
    return E.havoc(st, c)


# ---------------------------------------------------------------- terminfo
@model('terminfo::Database::get')
def db_get(E, st, c):
    ty = c.callee['args'][-1]
    name = E.T[ty].get('path') or E.tname(ty)
    db = c.args[0]
    who = (db[1], db[2]) if db[0] == 'ref' else db
    t = tm('cap', name, who)
    return [(st, E.mk(t, c.destty))]


@model('terminfo::Database::name')
def db_name(E, st, c):
    db = c.args[0]
    who = (db[1], db[2]) if db[0] == 'ref' else db
    t = tm('dbname', who)
    cell = ('D', t)
    return [(st, ('sl', cell, (), L.const(0), E.lensym(tm('len', t))))]


@rx(r'^terminfo::capability::\w+::<\'a>::expand$|^terminfo::capability::Expansion::<.*>::(parameters|with)$')
def exp_build(E, st, c):
    nm = c.path.split('::')[-1]
    if nm == 'expand':
        ty = pointee(E, c.argtys[0])
        cap = E.T[ty].get('path', E.tname(ty)).split('::')[-1]
        v = rd(E, st, c.args[0], c.argtys[0])
        src = v[1] if v[0] == 'sym' else fresh('capval')
        return [(st, ('exp', cap, src, ()))]
    v = c.args[0]
    if v[0] != 'exp':
        return None
    if nm == 'parameters':
        return [(st, ('exp', v[1], v[2], tuple(c.args[1:])))]
    return [(st, v)]


@model('terminfo::capability::Expansion::<\'a, T>::to')
def exp_to(E, st, c):
    """Appends the expansion to a Vec<u8>; may fail, possibly part way."""
    out = []
    v0 = c.args[0]
    for okk in (True, False):
        s = st.copy()
        a = c.args[1]
        if a[0] == 'ref':
            v = seqof(E, s, a, c.argtys[1])
            if v[0] == 'seq':
                n = E.lensym(fresh('explen'))
                setseq(E, s, a, grow(E, s, v, n), c, 'append', n=n, exp=v0, ok=okk)
        if okk:
            out.append((s, E.variant(c.destty, 'Ok', (UNIT,))))
        else:
            ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
            out.append((s, E.variant(c.destty, 'Err', (E.mk(fresh('tierr'), ety),))))
    return out


# ---------------------------------------------------------------- nix / libc
def res(E, st, ty, ok_val, err_term=None):
    """[(Ok state, v), (Err state, v)]"""
    oks = (st.copy(), E.variant(ty, 'Ok', (ok_val,)))
    ety = E.T[ty]['variants'][E.vix(ty, 'Err')]['fields'][0][1]
    e = E.mk(fresh('errno'), ety)
    return [oks, (st.copy(), E.variant(ty, 'Err', (e,)))]


def okty(E, ty):
    return E.T[ty]['variants'][E.vix(ty, 'Ok')]['fields'][0][1]


@model('nix::unistd::write', 'nix::unistd::read')
def nix_rw(E, st, c):
    s = as_slice(E, st, c.args[1], c.argtys[1])
    n = E.lensym(fresh('io'))
    st.add_ge(L.sub(s[4], n))
    if c.path.endswith('read'):
        seqhook(E, st, 'fill_from_device', s[1], s[2], dst=s, n=n, call=c)
    return res(E, st, c.destty, ('i', n, okty(E, c.destty)))


@model('nix::sys::select::select')
def nix_select(E, st, c):
    t = okty(E, c.destty)
    return res(E, st, c.destty, ('i', E.isym(fresh('nready'), t), t))


@model('nix::sys::select::FdSet::new')
def fdset_new(E, st, c):
    return [(st, ('sym', fresh('fdset'), c.destty))]


@model('nix::sys::select::FdSet::insert')
def fdset_insert(E, st, c):
    return [(st, UNIT)]


@model('nix::sys::termios::tcgetattr', 'nix::sys::signal::sigaction', 'nix::sys::termios::tcsetattr')
def nix_simple(E, st, c):
    t = okty(E, c.destty)
    return res(E, st, c.destty, UNIT if E.tk(t) == 'tuple' else E.mk(fresh(c.path.split('::')[-1]), t))


@model('libc::ioctl')
def libc_ioctl(E, st, c):
    for a in c.args[1:]:
        if a[0] == 'ref':
            cur = E.deref(st, a)
            if cur[0] == 'st':
                E.store_at(st, a[1], a[2], ('st', tuple(refresh(E, x) for x in cur[1])), None, site(c))
            else:
                E.havoc_at(st, a)
    return [(st, ('i', E.isym(fresh('ioctl'), c.destty), c.destty))]


def refresh(E, v):
    if v[0] == 'i':
        return ('i', E.isym(fresh('outparam'), v[2]), v[2])
    return v


@model('<nix::sys::signal::Signal as std::convert::TryFrom<i32>>::try_from')
def sig_try_from(E, st, c):
    """Result<Signal, Errno>: exact on the signals' discriminants."""
    l = E.to_lin(st, c.args[0], c.argtys[0])
    sty = okty(E, c.destty)
    vs = E.T[sty]['variants']
    out = []
    ety = E.T[c.destty]['variants'][E.vix(c.destty, 'Err')]['fields'][0][1]
    if not l[1]:
        for i, v in enumerate(vs):
            if v['discr'] == l[0]:
                return [(st, E.variant(c.destty, 'Ok', (E.en_const(sty, i, ()),)))]
        return [(st, E.variant(c.destty, 'Err', (E.mk(fresh('errno'), ety),)))]
    return None


@model('<std::fs::File as std::os::fd::FromRawFd>::from_raw_fd')
def from_raw_fd(E, st, c):
    return [(st, ('sym', tm('file', c.args[0] if c.args[0][0] != 'i' else c.args[0][1]), c.destty))]


@model('<std::fs::File as std::os::fd::IntoRawFd>::into_raw_fd')
def into_raw_fd(E, st, c):
    return [(st, ('i', E.isym(tm('rawfd', c.args[0][1] if c.args[0][0] == 'sym' else fresh('f')), c.destty), c.destty))]


@model('<char as unicode_width::UnicodeWidthChar>::width')
def uw_width(E, st, c):
    l = E.to_lin(st, c.args[0], c.argtys[0])
    if l == L.const(32):
        return [(st, E.some(c.destty, ('i', L.const(1), usize(E))))]
    r = E.mk(tm('uwidth', l), c.destty)
    pl = E.payload(r, E.vix(c.destty, 'Some'), 0)
    if pl[0] == 'i':
        st.add_ge(pl[1])
        st.add_ge(L.sub(L.const(3), pl[1]))
        # the payload symbol stands for the width; 0 where there is none
        st = E.assume(st, B.lor(E.en_is(r, E.vix(c.destty, 'Some')), eq_atom(pl[1])))
    return [(st, r)]


@model('unicode_normalization::char::is_combining_mark')
def un_combining(E, st, c):
    l = E.to_lin(st, c.args[0], c.argtys[0])
    if l == L.const(32):
        return [(st, FALSE)]
    return [(st, ('b', B.var(('t', tm('combining', l)))))]


@rx(r'^(std|core)::slice::<impl \[T\]>::binary_search(_by|_by_key)?$')
def binary_search(E, st, c):
    s = as_slice(E, st, c.args[0], c.argtys[0])
    out = []
    for st1, _ in E.havoc(st, c):
        for k in ('Ok', 'Err'):
            f = E.T[c.destty]['variants'][E.vix(c.destty, k)]['fields'][0][1]
            n = E.lensym(fresh('found'))
            a = st1.copy()
            if a.add_ge(L.sub(L.sub(s[4], n), L.const(1 if k == 'Ok' else 0))):
                out.append((a, E.variant(c.destty, k, (('i', n, f),))))
    return out


@model('std::time::Duration::as_secs')
def dur_secs(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    t = v[1] if v[0] == 'sym' else fresh('dur')
    return [(st, ('i', E.isym(tm('as_secs', t), c.destty), c.destty))]


@rx(r'^std::time::Duration::subsec_(millis|micros|nanos)$')
def dur_sub(E, st, c):
    v = rd(E, st, c.args[0], c.argtys[0])
    t = v[1] if v[0] == 'sym' else fresh('dur')
    hi = {'millis': 999, 'micros': 999999, 'nanos': 999999999}[c.path.split('_')[-1]]
    return [(st, ('i', L.var(L.sym(tm('subsec', t, hi), 0, hi)), c.destty))]


@rx(r'^std::sync::atomic::Atomic::<\w+>::(load|store|swap|fetch_\w+|compare_exchange\w*)$|^std::sync::atomic::Atomic\w+::(load|store|swap|fetch_\w+|compare_exchange\w*)$')
def atomics(E, st, c):
    op = c.path.split('::')[-1]
    if op == 'store':
        return [(st, UNIT)]
    return [(st, E.mk(fresh('atomic'), c.destty))]

# ---------------------------------------------------------------- flag words of other crates
def flagty(E, ty):
    """(struct type, bits type) of a bitflags struct, through references."""
    t = E.T[ty]
    while t['k'] in ('ref', 'ptr'):
        ty = t['e']
        t = E.T[ty]
    if t['k'] != 'struct' or len(t['variants'][0]['fields']) != 1:
        return None
    b = t['variants'][0]['fields'][0][1]
    return (ty, b) if E.T[b]['k'] == 'int' else None


def flagbits(E, st, v, f):
    if v[0] == 'ref':
        v = E.deref(st, v, f[0])
    if v[0] == 'sym':
        v = E.expand(v)
    return E.to_bv(st, v[1][0], f[1])


def flagval(bits, f):
    return ('st', (('bv', tuple(bits), f[1]),))


@rx(r'^nix::(\w+::)*\w+Flags::(insert|remove|toggle|set|contains|intersects|is_empty|bits|empty|union|difference|intersection)$'
    r'|^<nix::(\w+::)*\w+Flags as std::ops::\w+>::(bitor|bitand|bitxor|sub|bitor_assign|bitand_assign|bitxor_assign|sub_assign)$')
def flags(E, st, c):
    op = c.path.split('::')[-1]
    if op == 'empty':
        f = flagty(E, c.destty)
        return [(st, flagval((0,) * E.bits_of(f[1]), f))] if f else None
    f = flagty(E, c.argtys[0])
    if f is None:
        return None
    a = flagbits(E, st, c.args[0], f)
    if op == 'bits':
        return [(st, ('bv', a, f[1]))]
    if op == 'is_empty':
        n = 1
        for x in a:
            n = B.land(n, B.lnot(x))
        return [(st, ('b', n))]
    b = flagbits(E, st, c.args[1], f)
    if op in ('contains', 'intersects'):
        n = 1
        for x, y in zip(a, b):
            n = B.land(n, B.lor(B.lnot(y), x) if op == 'contains' else B.lnot(B.land(x, y)))
        return [(st, ('b', n if op == 'contains' else B.lnot(n)))]
    if op == 'set':
        v = c.args[2][1]
        r = [B.ite(y, v, x) for x, y in zip(a, b)]
    else:
        g = {'insert': B.lor, 'bitor': B.lor, 'union': B.lor, 'bitor_assign': B.lor,
             'remove': lambda x, y: B.land(x, B.lnot(y)), 'sub': lambda x, y: B.land(x, B.lnot(y)),
             'difference': lambda x, y: B.land(x, B.lnot(y)), 'sub_assign': lambda x, y: B.land(x, B.lnot(y)),
             'toggle': B.xor, 'bitxor': B.xor, 'bitxor_assign': B.xor,
             'bitand': B.land, 'bitand_assign': B.land, 'intersection': B.land}[op]
        r = [g(x, y) for x, y in zip(a, b)]
    if op in ('insert', 'remove', 'toggle', 'set') or op.endswith('_assign'):
        wr(E, st, c.args[0], flagval(r, f), c)
        return [(st, UNIT)]
    return [(st, flagval(r, f))]


# ---------------------------------------------------------------- drops
