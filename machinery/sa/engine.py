"""Abstract interpreter over MIR.

States are flow-sensitive; paths are merged at every join point whose states
agree on the shape of the live locals and on the property's typestate (ESP
style), and loops are run to a fixpoint.  Values live in a small algebra:

  ('i', lin, ty)               integer / char as a linear term
  ('b', node)                  bool as a BDD node
  ('bv', bits, ty)             integer as a vector of BDD nodes (flag words)
  ('st', fields)               struct / tuple / closure / known array
  ('en', ty, bits, pay, base)  enum: discriminant bits, known payloads, lazy base
  ('dsc', en)                  discriminant of an enum value
  ('ref', cell, path)          thin pointer
  ('sl', cell, path, start, len)   pointer to a slice / str
  ('seq', len, cap, tag)       contents of a Vec / array / slice (elements opaque)
  ('guard', mutexref)          MutexGuard
  ('fn', key)                  function item / pointer
  ('sym', term, ty)            opaque value
  ('top',)                     unknown
"""
from . import lin as L
from .bdd import B
from .mir import Body

MAXI = (1 << 63) - 1


class Tm:
    __slots__ = ('parts', 'n')
    table = {}
    count = 0

    def __repr__(self):
        p = self.parts
        if p[0] == 'fld':
            return '%r.%s%s' % (p[1], '' if not p[2] else 'v%s.' % p[2], p[3])
        if p[0] == 'deref':
            return '*%r' % (p[1],)
        if p[0] == 'arg':
            return str(p[1])
        return '%s(%s)' % (p[0], ','.join(map(str, p[1:])))
    __str__ = __repr__

    def __lt__(self, o):
        return self.n < o.n


def tm(*parts):
    t = Tm.table.get(parts)
    if t is None:
        t = Tm()
        t.parts = parts
        Tm.count += 1
        t.n = Tm.count
        Tm.table[parts] = t
    return t


_fr = [0]


def fresh(kind, *info):
    _fr[0] += 1
    return tm('new', kind, _fr[0], *info)


UNIT = ('st', ())
TRUE = ('b', 1)
FALSE = ('b', 0)
TOP = ('top',)


class Budget(Exception):
    pass


class Anchor(Exception):
    """A construct the check is anchored in is missing: the check cannot decide."""


class St:
    __slots__ = ('mem', 'ge', 'eq', 'ne', 'bdd')

    def __init__(self):
        self.mem = {}
        self.ge = frozenset()
        self.eq = frozenset()
        self.ne = frozenset()
        self.bdd = 1

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.ge = self.ge
        s.eq = self.eq
        s.ne = self.ne
        s.bdd = self.bdd
        return s

    # ghost variables are ordinary cells ('G', name)
    def g(self, name, default=None):
        return self.mem.get(('G', name), default)

    def setg(self, name, v):
        self.mem[('G', name)] = v

    # ---- numeric
    def ent_ge(self, l):
        return L.entails_ge(self.ge, self.eq, l)

    def ent_eq(self, l):
        return L.entails_eq(self.ge, self.eq, l)

    def add_ge(self, l):
        if not l[1]:
            return l[0] >= 0
        if self.ent_ge(l):
            return True
        neg = L.scale(l, -1)
        if l in self.ne or neg in self.ne:
            l = L.add(l, L.const(-1))
        si, se = L.slice_for([s for s, _ in l[1]], self.ge, self.eq)
        if not L.feasible(tuple(si) + (l,), tuple(se)):
            return False
        self.ge = self.ge | {l}
        return True

    def add_eq(self, l):
        if not l[1]:
            return l[0] == 0
        if l in self.eq:
            return True
        if l in self.ne or L.scale(l, -1) in self.ne:
            return False
        si, se = L.slice_for([s for s, _ in l[1]], self.ge, self.eq)
        if not L.feasible(tuple(si), tuple(se) + (l,)):
            return False
        for n in self.ne:
            if set(s for s, _ in n[1]) <= set(s for s, _ in l[1]) and L.entails_eq(tuple(si), tuple(se) + (l,), n):
                return False
        self.eq = self.eq | {l}
        return True

    def add_ne(self, l):
        if not l[1]:
            return l[0] != 0
        if self.ent_eq(l):
            return False
        if self.ent_ge(l):
            return self.add_ge(L.add(l, L.const(-1)))
        m = L.scale(l, -1)
        if self.ent_ge(m):
            return self.add_ge(L.add(m, L.const(-1)))
        self.ne = self.ne | {l}
        return True


ATOMS = {}   # bdd var index -> ('ge'|'eq', lin)


def ge_atom(l):
    neg = L.add(L.scale(l, -1), L.const(-1))
    lead = l[1][0][1]
    if lead > 0:
        n = B.var(('ge', l))
        ATOMS[B.nodes[n][0]] = ('ge', l)
        return n
    n = B.var(('ge', neg))
    ATOMS[B.nodes[n][0]] = ('ge', neg)
    return B.lnot(n)


def eq_atom(l):
    if l[1][0][1] < 0:
        l = L.scale(l, -1)
    n = B.var(('eq', l))
    ATOMS[B.nodes[n][0]] = ('eq', l)
    return n


class Call:
    __slots__ = ('callee', 'path', 'args', 'argtys', 'destty', 'site', 'ctx', 'body', 'argops', 'loc', 'gpath')

    def __repr__(self):
        return 'call %s at %s' % (self.path, self.loc)


class Plugin:
    """Property hooks.  All methods may be left out."""

    def call(self, E, st, c):
        return None

    def entry(self, E, st, body):
        return None

    def key(self, st):
        return ()

    def write(self, E, st, cell, path, val, ty, site):
        pass

    def at_head(self, E, st):
        pass

    def elem_read(self, E, st, cell, path, ix, ty):
        return None

    def elem_write(self, E, st, cell, path, ix, rest, val, ty):
        pass

    def on_panic(self, E, st, kind, loc, chain):
        pass

    def on_drop(self, E, st, ty, cell, path, val, loc):
        pass

    def mk(self, E, term, ty):
        return None


class Engine:
    def __init__(self, P, plugins=(), models=None, max_steps=400000):
        self.P = P
        self.T = P.T
        self.plugins = list(plugins)
        from . import models as M
        self.models = M.TABLE
        self.rxmodels = M.REGEX
        self.dropm = M.DROPS
        self.fnvals = {}
        self.consts = {}
        self.celltys = {}
        self.unknown = {}
        self.depth_cb = 0
        self.steps = 0
        self.max_steps = max_steps
        self.frames = []
        self.fids = {}
        self.analysed = {}
        self.callsites = set()
        self.modelled = {}
        self.joins = 0
        self.loop_iters = 0
        self.live_memo = {}
        self.no_inline = set()
        self.nobits = 0            # words of this many bits or more are not taken apart
        self.noret = {}
        self.bit_types = frozenset()   # integer types always joined bit by bit
        self.coarse = False     # forget relations at joins (typestate analyses)
        self.pinned = frozenset()       # variables kept even so

    # ------------------------------------------------------------- types
    def tk(self, ty):
        return self.T[ty]['k']

    def tname(self, ty):
        return self.T[ty]['s']

    def irange(self, ty):
        t = self.T[ty]
        if t['k'] == 'char':
            return (0, 0x10FFFF)
        if t['k'] == 'bool':
            return (0, 1)
        if t['k'] == 'int':
            b = t['bits']
            if t['signed']:
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            return (0, (1 << b) - 1)
        return (None, None)

    def adt(self, ty):
        t = self.T[ty]
        return t.get('path') if t['k'] in ('struct', 'enum', 'union') else None

    def is_vec(self, ty):
        t = self.T[ty]
        return t['k'] == 'struct' and t['path'].endswith('vec::Vec')

    def find_ty(self, pred):
        for i, t in enumerate(self.T):
            if pred(t):
                return i
        return None

    def nbits(self, ty):
        return max(0, (len(self.T[ty]['variants']) - 1).bit_length())

    def inhabited(self, ty, depth=0):
        t = self.T[ty]
        if t['k'] == 'never':
            return False
        if t['k'] == 'enum':
            if depth > 3:
                return True
            return any(all(self.inhabited(f[1], depth + 1) for f in v['fields']) for v in t['variants'])
        if t['k'] in ('tuple',):
            return all(self.inhabited(e, depth + 1) for e in t['e'])
        return True

    def live_variants(self, ty):
        t = self.T[ty]
        if '_lv' not in t:
            t['_lv'] = [i for i, v in enumerate(t['variants']) if all(self.inhabited(f[1]) for f in v['fields'])]
        return t['_lv']

    # ------------------------------------------------------------- materialise
    def isym(self, term, ty):
        lo, hi = self.irange(ty)
        return L.var(L.sym(term, lo, hi))

    def lensym(self, term):
        return L.var(L.sym(term, 0, MAXI))

    def mkseq(self, term):
        return ('seq', self.lensym(tm('len', term)), None, L.var(L.sym(tm('base', term))))

    def mk(self, term, ty):
        for p in self.plugins:
            r = p.mk(self, term, ty)
            if r is not None:
                return r
        t = self.T[ty]
        k = t['k']
        if k in ('int', 'char'):
            return ('i', self.isym(term, ty), ty)
        if k == 'bool':
            return ('b', B.var(('t', term)))
        if k in ('ref', 'ptr'):
            e = self.T[t['e']]
            if e['k'] in ('slice', 'str'):
                c = ('D', tm('deref', term))
                self.celltys.setdefault(c, t['e'])
                return ('sl', c, (), L.const(0), self.lensym(tm('len', tm('deref', term))))
            if e['k'] == 'dyn':
                return ('sym', term, ty)
            c = ('D', tm('deref', term))
            self.celltys.setdefault(c, t['e'])
            return ('ref', c, ())
        if k == 'tuple':
            return ('st', tuple(self.mk(tm('fld', term, 0, i), e) for i, e in enumerate(t['e'])))
        if k == 'enum':
            if not t['variants']:
                return TOP
            n = self.nbits(ty)
            return ('en', ty, tuple(B.var(('d', term, i)) for i in range(n)), (), term)
        if self.is_vec(ty):
            cap = self.lensym(tm('cap', term))
            return ('seq', self.lensym(tm('len', term)), cap, L.var(L.sym(tm('base', term))))
        if k == 'array':
            n = t.get('len')
            return ('seq', L.const(n) if n is not None else self.lensym(tm('len', term)), None, L.var(L.sym(tm('base', term))))
        if k in ('slice', 'str'):
            return self.mkseq(term)
        if k == 'fndef':
            return self.fnval(t['f'])
        return ('sym', term, ty)

    def fnval(self, callee):
        k = callee.get('inst') or callee['full']
        self.fnvals.setdefault(k, callee)
        return ('fn', k)

    def some(self, ty, v):
        """Option::Some(v) for Option type ty."""
        return self.variant(ty, 'Some', (v,))

    def variant(self, ty, name, fields):
        vs = self.T[ty]['variants']
        for i, v in enumerate(vs):
            if v['name'] == name:
                return self.en_const(ty, i, fields)
        raise Anchor('variant %s of %s' % (name, self.tname(ty)))

    def vix(self, ty, name):
        for i, v in enumerate(self.T[ty]['variants']):
            if v['name'] == name:
                return i
        raise Anchor('variant %s of %s' % (name, self.tname(ty)))

    def en_const(self, ty, i, fields):
        n = self.nbits(ty)
        return ('en', ty, tuple((i >> b) & 1 for b in range(n)), ((i, tuple(fields)),), None)

    def en_is(self, v, i):
        """BDD node: enum value v has variant i."""
        r = 1
        for b, n in enumerate(v[2]):
            r = B.land(r, n if (i >> b) & 1 else B.lnot(n))
        return r

    def en_variant(self, st, v):
        """Known variant index of an enum value in st, or None."""
        if v[0] != 'en':
            return None
        if all(n <= 1 for n in v[2]):
            return sum(n << b for b, n in enumerate(v[2]))
        for i in self.live_variants(v[1]):
            if B.implies(st.bdd, self.en_is(v, i)):
                return i
        return None

    def possible(self, st, v):
        return [i for i in self.live_variants(v[1]) if B.land(st.bdd, self.en_is(v, i)) != 0]

    def en_valid(self, st, v):
        if len(self.live_variants(v[1])) != 1 << len(v[2]):
            r = 0
            for i in self.live_variants(v[1]):
                r = B.lor(r, self.en_is(v, i))
            st.bdd = B.land(st.bdd, r)

    def payload(self, v, var, i):
        """Field i of variant var of an enum value."""
        for pv, fs in v[3]:
            if pv == var:
                return fs[i]
        fty = self.T[v[1]]['variants'][var]['fields'][i][1]
        if v[4] is not None:
            return self.mk(tm('fld', v[4], var, i), fty)
        return self.mk(fresh('pay'), fty)

    def split_variant(self, st, v, names=None):
        """Split st on the variant of enum value v: [(name, st', v)]."""
        out = []
        for i in self.live_variants(v[1]):
            n = self.en_is(v, i)
            if B.land(st.bdd, n) == 0:
                continue
            s = st.copy() if n != 1 else st
            s = self.assume(s, n)
            if s is not None:
                out.append((self.T[v[1]]['variants'][i]['name'], i, s))
        return out

    # ------------------------------------------------------------- assume
    def assume(self, st, node):
        """Conjoin a BDD condition; None if infeasible.  st is consumed."""
        if node == 1:
            return st
        nb = B.land(st.bdd, node)
        if nb == 0:
            return None
        st.bdd = nb
        for v in B.support(nb):
            a = ATOMS.get(v)
            if a is None:
                continue
            if B.restrict(nb, v, False) == 0:
                ok = st.add_ge(a[1]) if a[0] == 'ge' else st.add_eq(a[1])
            elif B.restrict(nb, v, True) == 0:
                if a[0] == 'ge':
                    ok = st.add_ge(L.add(L.scale(a[1], -1), L.const(-1)))
                else:
                    ok = st.add_ne(a[1])
            else:
                continue
            if not ok:
                return None
        return st

    def ge_node(self, st, l):
        """Condition l >= 0."""
        if not l[1]:
            return 1 if l[0] >= 0 else 0
        if st.ent_ge(l):
            return 1
        if st.ent_ge(L.add(L.scale(l, -1), L.const(-1))):
            return 0
        return ge_atom(l)

    def eq_node(self, st, l):
        if not l[1]:
            return 1 if l[0] == 0 else 0
        if l in st.ne or L.scale(l, -1) in st.ne:
            return 0
        a = st.ent_ge(l)
        b = st.ent_ge(L.scale(l, -1))
        if a and b:
            return 1
        if a and st.ent_ge(L.add(l, L.const(-1))):
            return 0
        if b and st.ent_ge(L.add(L.scale(l, -1), L.const(-1))):
            return 0
        return eq_atom(l)

    # ------------------------------------------------------------- ints
    def bits_of(self, ty):
        t = self.T[ty]
        return t['bits'] if t['k'] == 'int' else 32 if t['k'] == 'char' else 1

    def to_bv(self, st, v, ty):
        n = self.bits_of(ty)
        if v[0] == 'bv':
            b = v[1]
            return tuple(b[:n]) + (0,) * (n - len(b))
        if v[0] == 'b':
            return (v[1],) + (0,) * (n - 1)
        if v[0] == 'i':
            l = v[1]
            if not l[1]:
                return tuple((l[0] >> i) & 1 for i in range(n))
            if len(l[1]) == 1 and l[1][0][1] == 1 and l[0] == 0:
                s = l[1][0][0]
                hi = L.SYM[s][2]
                w = n if hi is None or L.SYM[s][1] is None or L.SYM[s][1] < 0 else min(n, hi.bit_length())
                return tuple(B.var(('bit', s, i)) for i in range(w)) + (0,) * (n - w)
        if v[0] == 'dsc':
            en = v[1]
            vs = self.T[en[1]]['variants']
            out = [0] * n
            for i in self.live_variants(en[1]):
                c = self.en_is(en, i)
                for b in range(n):
                    if (vs[i]['discr'] >> b) & 1:
                        out[b] = B.lor(out[b], c)
            return tuple(out)
        t = fresh('bv')
        return tuple(B.var(('bit', t, i)) for i in range(n))

    def to_lin(self, st, v, ty):
        """Linear term of an integer-like value."""
        if v[0] == 'i':
            return v[1]
        if v[0] == 'b':
            if v[1] <= 1:
                return L.const(v[1])
            return L.var(L.sym(tm('ofbool', v[1]), 0, 1))
        if v[0] == 'bv':
            b = v[1]
            if all(x <= 1 for x in b):
                return L.const(sum(x << i for i, x in enumerate(b)))
            s = None
            ok = True
            for i, x in enumerate(b):
                if x == 0 and s is not None:
                    hi = L.SYM[s][2] if s is not None else None
                    if hi is not None and i >= hi.bit_length():
                        continue
                if x <= 1:
                    ok = False
                    break
                nv, lo, hi = B.nodes[x]
                nm = B.names[nv]
                if (lo, hi) != (0, 1) or nm[0] != 'bit' or nm[2] != i or (s is not None and nm[1] != s) or not isinstance(nm[1], int):
                    ok = False
                    break
                s = nm[1]
            if ok and s is not None:
                return L.var(s)
            # range from constant-zero high bits
            top = len(b)
            while top and b[top - 1] == 0:
                top -= 1
            return L.var(L.sym(tm('ofbits', b), 0, (1 << top) - 1))
        if v[0] == 'dsc':
            en = v[1]
            vs = self.T[en[1]]['variants']
            k = [i for i in self.live_variants(en[1]) if B.land(st.bdd, self.en_is(en, i)) != 0]
            if len(k) == 1:
                return L.const(vs[k[0]]['discr'])
            if not k:
                return L.const(0)
            ds = [vs[i]['discr'] for i in k]
            return L.var(L.sym(tm('ofdsc', en, min(ds), max(ds)), min(ds), max(ds)))
        if v[0] == 'sym':
            return self.isym(v[1], ty)
        return self.isym(fresh('int'), ty)

    def bv_ge(self, a, b):
        """BDD for unsigned a >= b."""
        r = 1
        for x, y in zip(a, b):     # little endian: later bits dominate
            r = B.ite(B.xor(x, y), x, r)
        return r

    def cmp(self, st, op, a, b, ty):
        k = self.tk(ty)
        if op in ('Eq', 'Ne'):
            n = self.equal(st, a, b, ty)
            return B.lnot(n) if op == 'Ne' else n
        if a[0] in ('bv', 'dsc') or b[0] in ('bv', 'dsc'):
            cst = lambda v: v[0] == 'i' and not v[1][1]
            if (a[0] in ('bv', 'dsc') or cst(a)) and (b[0] in ('bv', 'dsc') or cst(b)) and not self.T[ty].get('signed'):
                x, y = self.to_bv(st, a, ty), self.to_bv(st, b, ty)
                return {'Ge': lambda: self.bv_ge(x, y), 'Lt': lambda: B.lnot(self.bv_ge(x, y)),
                        'Le': lambda: self.bv_ge(y, x), 'Gt': lambda: B.lnot(self.bv_ge(y, x))}[op]()
        if k in ('int', 'char', 'bool') or a[0] == 'i' or b[0] == 'i':
            d = L.sub(self.to_lin(st, a, ty), self.to_lin(st, b, ty))
            if op == 'Ge':
                return self.ge_node(st, d)
            if op == 'Gt':
                return self.ge_node(st, L.add(d, L.const(-1)))
            if op == 'Le':
                return self.ge_node(st, L.scale(d, -1))
            if op == 'Lt':
                return self.ge_node(st, L.add(L.scale(d, -1), L.const(-1)))
        return B.var(('t', fresh('cmp')))

    def equal(self, st, a, b, ty=None):
        """BDD node for a == b."""
        if a == b and a[0] != 'top' and not self.has_top(a):
            return 1
        ka, kb = a[0], b[0]
        if ty is None and ka in ('i', 'bv'):
            ty = a[2]
        elif ty is None and kb in ('i', 'bv'):
            ty = b[2]
        if ka == 'b' and kb == 'b':
            return B.iff(a[1], b[1])
        if ka == 'dsc' and kb == 'dsc' and a[1][1] == b[1][1]:
            r = 1
            for x, y in zip(a[1][2], b[1][2]):
                r = B.land(r, B.iff(x, y))
            return r
        if ka in ('bv', 'dsc') or kb in ('bv', 'dsc'):
            n = 64 if ty is None or self.T[ty]['k'] not in ('int', 'char') else self.bits_of(ty)
            cst = lambda v: v[0] == 'i' and not v[1][1]
            if all(x[0] in ('bv', 'dsc') or cst(x) for x in (a, b)) and ty is not None:
                x, y = self.to_bv(st, a, ty), self.to_bv(st, b, ty)
                r = 1
                for p, q in zip(x, y):
                    r = B.land(r, B.iff(p, q))
                return r
            if ka in ('i', 'bv', 'dsc') and kb in ('i', 'bv', 'dsc') and ty is not None:
                return self.eq_node(st, L.sub(self.to_lin(st, a, ty), self.to_lin(st, b, ty)))
        if ka == 'i' and kb == 'i' and ty is not None and self.bitlike(a) and self.bitlike(b) and self.tk(ty) == 'int':
            r = 1
            for p, q in zip(self.to_bv(st, a, ty), self.to_bv(st, b, ty)):
                r = B.land(r, B.iff(p, q))
            return r
        if ka == 'i' and kb == 'i':
            return self.eq_node(st, L.sub(a[1], b[1]))
        if ka == 'st' and kb == 'st' and len(a[1]) == len(b[1]):
            r = 1
            for x, y in zip(a[1], b[1]):
                r = B.land(r, self.equal(st, x, y))
            return r
        if ka == 'en' and kb == 'en' and a[1] == b[1]:
            r = 1
            for x, y in zip(a[2], b[2]):
                r = B.land(r, B.iff(x, y))
            for i in self.live_variants(a[1]):
                fs = self.T[a[1]]['variants'][i]['fields']
                c = B.land(self.en_is(a, i), self.en_is(b, i))
                if not fs or c == 0:
                    continue
                e = 1
                for k in range(len(fs)):
                    e = B.land(e, self.equal(st, self.payload(a, i, k), self.payload(b, i, k), fs[k][1]))
                r = B.land(r, B.imp(c, e))
            return r
        if ka == 'sym' and kb == 'sym':
            if self.T[a[2]]['k'] == 'struct' and a[2] == b[2]:
                fs = self.T[a[2]]['variants'][0]['fields']
                if self.T[a[2]]['local'] and fs:
                    return self.equal(st, self.expand(a), self.expand(b))
            x, y = sorted((a[1], b[1]))
            return B.var(('same', x, y))
        if ka == 'sym' and kb == 'st':
            return self.equal(st, self.expand(a), b) if self.T[a[2]]['k'] == 'struct' else B.var(('t', fresh('eq')))
        if ka == 'st' and kb == 'sym':
            return self.equal(st, a, self.expand(b)) if self.T[b[2]]['k'] == 'struct' else B.var(('t', fresh('eq')))
        return B.var(('t', fresh('eq')))

    def has_top(self, v):
        if v[0] == 'top':
            return True
        if v[0] == 'st':
            return any(self.has_top(x) for x in v[1])
        if v[0] == 'en':
            return any(self.has_top(x) for _, fs in v[3] for x in fs)
        return False

    def mkfield(self, term, sty, i, fty):
        """Lazily materialised field of an opaque struct value; flag words are bit vectors."""
        t = self.T[sty] if sty is not None else {}
        if t.get('k') == 'struct' and t.get('path', '').endswith('InternalBitFlags') and self.T[fty]['k'] == 'int':
            s = L.sym(term, *self.irange(fty))
            return ('bv', tuple(B.var(('bit', s, n)) for n in range(self.bits_of(fty))), fty)
        return self.mk(term, fty)

    def expand(self, v):
        """('sym', term, struct ty) -> ('st', fields)."""
        t = self.T[v[2]]
        if t['k'] == 'closure':
            return ('st', tuple(self.mk(tm('fld', v[1], 0, i), e) for i, e in enumerate(t['e'])))
        fs = t['variants'][0]['fields']
        return ('st', tuple(self.mkfield(tm('fld', v[1], 0, i), v[2], i, f[1]) for i, f in enumerate(fs)))

    # ------------------------------------------------------------- types along projections
    def fty(self, ty, var, i):
        t = self.T[ty]
        k = t['k']
        if k in ('tuple', 'closure'):
            return t['e'][i]
        if k in ('struct', 'enum', 'union'):
            return t['variants'][var or 0]['fields'][i][1]
        return None

    def fname(self, ty, i, var=0):
        t = self.T[ty]
        if t['k'] in ('struct', 'enum', 'union'):
            return t['variants'][var]['fields'][i][0]
        return str(i)

    def fix(self, ty, name):
        t = self.T[ty]
        for i, f in enumerate(t['variants'][0]['fields']):
            if f[0] == name:
                return i
        raise Anchor('field %s of %s' % (name, t['s']))

    # ------------------------------------------------------------- memory
    def default_cell(self, cell):
        k = cell[0]
        if k == 'D':
            ty = self.celltys.get(cell)
            if ty is None:
                return TOP
            return self.mk(cell[1], ty)
        if k == 'C':
            return self.consts[cell[1]]
        if k == 'B':
            return ('seq', L.const(len(cell[1])), None, L.var(L.sym(tm('constbase', cell[1]))))
        if k == 'M':      # data behind a mutex
            ty = self.celltys.get(cell)
            return self.mk(tm('mdata', cell[1]), ty) if ty is not None else TOP
        if k == 'S':
            ty = self.celltys.get(cell)
            return self.mk(tm('static', cell[1]), ty) if ty is not None else TOP
        return TOP

    def rcell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            v = self.default_cell(cell)
        return v

    def get(self, st, cell, path, ty0):
        """Value at cell.path; ty0 is the type of the whole cell (or None)."""
        v = self.rcell(st, cell)
        return self.getp(st, v, path, ty0, cell, ())

    def getp(self, st, v, path, ty, cell, done):
        i = 0
        var = 0
        while i < len(path):
            p = path[i]
            k = p[0]
            if k == 'd':
                var = p[1]
                i += 1
                continue
            if k == 'f':
                fty = p[2]
                if v[0] == 'st':
                    v = v[1][p[1]] if p[1] < len(v[1]) else TOP
                elif v[0] == 'en':
                    v = self.payload(v, var, p[1])
                elif v[0] == 'sym':
                    v = self.mkfield(tm('fld', v[1], var, p[1]), v[2], p[1], fty) if fty is not None else TOP
                elif v[0] == 'top':
                    v = self.mk(fresh('topf'), fty) if fty is not None else TOP
                else:
                    v = self.mk(fresh('odd'), fty) if fty is not None else TOP
                ty = fty
                var = 0
                i += 1
                continue
            if k == 'ix':
                if v[0] == 'st' and not p[1][1] and 0 <= p[1][0] < len(v[1]):
                    v = v[1][p[1][0]]
                    ty = p[2]
                    i += 1
                    continue
                r = None
                for pl in self.plugins:
                    r = pl.elem_read(self, st, cell, path[:i], p[1], p[2])
                    if r is not None:
                        break
                if r is None:
                    if cell[0] == 'B' and not path[:i] and not p[1][1] and 0 <= p[1][0] < len(cell[1]):
                        r = ('i', L.const(cell[1][p[1][0]]), p[2])
                    elif v[0] == 'st' and v[1]:
                        r = self.mk(fresh('elem'), p[2]) if p[2] is not None else TOP
                    else:
                        r = self.mk(fresh('elem'), p[2]) if p[2] is not None else TOP
                v = r
                ty = p[2]
                i += 1
                continue
            if k == 'sub':
                v = ('seq', p[2], None, L.add(v[3], p[1]) if v[0] == 'seq' and v[3] is not None else None)
                i += 1
                continue
            return TOP
        return v

    def put(self, st, cell, path, val, ty):
        if any(p[0] == 'ix' or p[0] == 'sub' for p in path):
            j = next(n for n, p in enumerate(path) if p[0] in ('ix', 'sub'))
            cont = self.getp(st, self.rcell(st, cell), path[:j], None, cell, ())
            p = path[j]
            if p[0] == 'ix' and cont[0] == 'st' and not p[1][1] and 0 <= p[1][0] < len(cont[1]):
                nv = self.setp(cont[1][p[1][0]], path[j + 1:], val)
                fs = list(cont[1])
                fs[p[1][0]] = nv
                return self.put(st, cell, path[:j], ('st', tuple(fs)), None)
            if cont[0] == 'st':
                self.put(st, cell, path[:j], ('seq', L.const(len(cont[1])), None, None), None)
            if p[0] == 'ix':
                for pl in self.plugins:
                    pl.elem_write(self, st, cell, path[:j], p[1], path[j + 1:], val, ty)
            return
        v = self.rcell(st, cell)
        st.mem[cell] = self.setp(v, path, val)

    def setp(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == 'd':
            var = p[1]
            if len(path) == 1:
                return val
            f = path[1]
            assert f[0] == 'f'
            if v[0] == 'en':
                fs = self.T[v[1]]['variants'][var]['fields']
                cur = [self.payload(v, var, i) for i in range(len(fs))]
                cur[f[1]] = self.setp(cur[f[1]], path[2:], val)
                pay = tuple(sorted([x for x in v[3] if x[0] != var] + [(var, tuple(cur))], key=lambda x: x[0]))
                return ('en', v[1], v[2], pay, v[4])
            return v
        if p[0] == 'f':
            if v[0] == 'sym' and self.T[v[2]]['k'] in ('struct', 'closure'):
                v = self.expand(v)
            if v[0] == 'st':
                fs = list(v[1])
                while len(fs) <= p[1]:
                    fs.append(TOP)
                fs[p[1]] = self.setp(fs[p[1]], path[1:], val)
                return ('st', tuple(fs))
            if v[0] == 'top':
                fs = [TOP] * (p[1] + 1)
                fs[p[1]] = self.setp(TOP, path[1:], val)
                return ('st', tuple(fs))
            return TOP
        return v

    # ------------------------------------------------------------- places
    def resolve(self, st, fid, body, place):
        """-> (cell, path, ty)"""
        l, projs, fty = place
        cell = ('L', fid, l)
        ty = body.locals[l][0]
        path = ()
        var = 0
        for e in projs:
            if e == '*':
                v = self.getp(st, self.rcell(st, cell), path, None, cell, ())
                pt = self.T[ty]
                ety = pt.get('e') if pt['k'] in ('ref', 'ptr') else None
                if v[0] == 'ref':
                    cell, path = v[1], v[2]
                elif v[0] == 'sl':
                    cell, path = v[1], v[2] + (('sub', v[3], v[4]),)
                elif v[0] == 'sym':
                    cell, path = ('D', tm('deref', v[1])), ()
                    if ety is not None:
                        self.celltys.setdefault(cell, ety)
                else:
                    cell, path = ('D', fresh('wild')), ()
                    if ety is not None:
                        self.celltys.setdefault(cell, ety)
                ty = ety
                var = 0
            elif e == 'other':
                path = path + (('o',),)
            elif e[0] == 'f':
                path = path + (('f', e[1], e[2]),)
                ty = e[2]
                var = 0
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] in ('i', 'c'):
                if e[0] == 'i':
                    iv = self.rcell(st, ('L', fid, e[1]))
                    ix = self.to_lin(st, iv, body.locals[e[1]][0])
                else:
                    ix = L.const(e[1])
                    if e[3]:
                        base = self.getp(st, self.rcell(st, cell), path, None, cell, ())
                        ix = L.sub(self.seqlen(base), ix)
                ety = self.T[ty].get('e') if ty is not None else None
                path = self.index_path(path, ix, ety)
                ty = ety
            elif e[0] == 's':
                base = self.getp(st, self.rcell(st, cell), path, None, cell, ())
                n = self.seqlen(base)
                if e[3]:
                    ln = L.sub(n, L.const(e[1] + e[2]))
                else:
                    ln = L.const(e[2] - e[1])
                path = self.sub_path(path, L.const(e[1]), ln)
        return cell, path, (fty if ty is None else ty)

    def seqlen(self, v):
        if v[0] == 'seq':
            return v[1]
        if v[0] == 'st':
            return L.const(len(v[1]))
        return self.lensym(fresh('len'))

    def index_path(self, path, ix, ety):
        if path and path[-1][0] == 'sub':
            return path[:-1] + (('ix', L.add(ix, path[-1][1]), ety),)
        return path + (('ix', ix, ety),)

    def sub_path(self, path, start, ln):
        if path and path[-1][0] == 'sub':
            return path[:-1] + (('sub', L.add(start, path[-1][1]), ln),)
        return path + (('sub', start, ln),)

    def read(self, st, fid, body, place):
        cell, path, ty = self.resolve(st, fid, body, place)
        v = self.getp(st, self.rcell(st, cell), path, None, cell, ())
        if v[0] == 'top' and place[2] is not None:
            v = self.mk(fresh('top'), place[2])
        return v

    # ------------------------------------------------------------- constants
    def cval(self, c):
        k = c[0]
        if k == 'named':
            return self.cval(c[2])
        if k == 'int' or k == 'char':
            return ('i', L.const(c[1]), c[2])
        if k == 'bool':
            return ('b', 1 if c[1] else 0)
        if k in ('str', 'bytes'):
            bs = bytes(c[1])
            return ('sl', ('B', bs), (), L.const(0), L.const(len(bs)))
        if k == 'fn':
            return self.fnval(c[1])
        if k == 'fnptr':
            return ('fn', c[1])
        if k == 'static':
            cell = ('S', c[1])
            t = self.T[c[2]]
            self.celltys.setdefault(cell, t['e'])
            return ('ref', cell, ())
        if k == 'ref':
            v = self.cval(c[1])
            t = self.T[c[2]]
            e = self.T[t['e']]
            key = (v, t['e'])
            cell = ('C', key)
            self.consts[key] = v
            return ('ref', cell, ())
        if k == 'agg':
            ty = c[3]
            fs = tuple(self.cval(x) for x in c[2])
            if self.tk(ty) == 'enum':
                return self.en_const(ty, c[1], fs)
            if self.is_vec(ty):
                return ('seq', L.const(0), L.const(0), None)
            return ('st', fs)
        if k == 'opaque':
            ty = c[1]
            t = self.T[ty]
            if t['k'] in ('tuple',) and not t['e']:
                return UNIT
            return self.mk(tm('constv', ty), ty)
        return TOP

    # ------------------------------------------------------------- operands / rvalues
    def operand(self, st, fid, body, o):
        k = o[0]
        if k in ('copy', 'move'):
            return self.read(st, fid, body, o[1])
        if k == 'const':
            return self.cval(o[1])
        if k == 'rtchk':
            return ('b', 1 if 'Overflow' in o[1] else 0)
        return TOP

    def opty(self, body, o):
        if o[0] in ('copy', 'move'):
            return o[1][2]
        if o[0] == 'const':
            c = o[1]
            if c[0] == 'named':
                c = c[2]
            return c[-1]
        return None

    def wrap(self, st, l, ty, what='arith'):
        """Linear term reduced to the range of ty: exact when in range."""
        lo, hi = self.irange(ty)
        if lo is None:
            return ('i', l, ty)
        if not l[1]:
            n = l[0]
            if lo <= n <= hi:
                return ('i', l, ty)
            m = hi - lo + 1
            return ('i', L.const((n - lo) % m + lo), ty)
        if st.ent_ge(L.sub(l, L.const(lo))) and st.ent_ge(L.sub(L.const(hi), l)):
            return ('i', l, ty)
        return ('i', self.isym(tm('wrap', l, ty), ty), ty)

    bitadd = False

    def bv_add(self, st, op, a, b, ty):
        """Exact sum or difference of vectors of bits."""
        x, y = self.to_bv(st, a, ty), self.to_bv(st, b, ty)
        c, out = (0, []) if op[:3] == 'Add' else (1, [])
        for p, q in zip(x, y):
            q = q if op[:3] == 'Add' else B.lnot(q)
            t = B.xor(p, q)
            out.append(B.xor(t, c))
            c = B.lor(B.land(p, q), B.land(t, c))
        v = self.norm_bv(('bv', tuple(out), ty))
        if op.endswith('Overflow'):
            return ('st', (v, ('b', c if op[:3] == 'Add' else B.lnot(c))))
        return v

    def arith(self, st, op, a, b, ty):
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'Mul', 'MulUnchecked', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if self.bitadd and op[:3] in ('Add', 'Sub') and 'bv' in (a[0], b[0]) and self.T[ty].get('signed') is False:
                return self.bv_add(st, op, a, b, ty)
            x, y = self.to_lin(st, a, ty), self.to_lin(st, b, ty)
            o = op[:3]
            l = L.add(x, y) if o == 'Add' else L.sub(x, y) if o == 'Sub' else L.mul(x, y)
            if op.endswith('Unchecked'):
                return ('i', l, ty)
            if op.endswith('Overflow'):
                lo, hi = self.irange(ty)
                ok = B.land(self.ge_node(st, L.sub(l, L.const(lo))), self.ge_node(st, L.sub(L.const(hi), l)))
                v = ('i', l, ty) if l[1] or lo <= l[0] <= hi else self.wrap(st, l, ty)
                return ('st', (v, ('b', B.lnot(ok))))
            return self.wrap(st, l, ty)
        if op in ('Div', 'Rem'):
            x, y = self.to_lin(st, a, ty), self.to_lin(st, b, ty)
            if not x[1] and not y[1] and y[0] != 0 and x[0] >= 0 and y[0] > 0:
                return ('i', L.const(x[0] // y[0] if op == 'Div' else x[0] % y[0]), ty)
            if not y[1] and y[0] > 0 and self.T[ty].get('signed') is False and all(k % y[0] == 0 for _, k in x[1]):
                # x = y*q + r with a constant r
                m = x[0] % y[0]
                if op == 'Rem':
                    return ('i', L.const(m), ty)
                return ('i', ((x[0] - m) // y[0], tuple((v, k // y[0]) for v, k in x[1])), ty)
            q = L.var(L.sym(tm('div', x, y, ty), *self.irange(ty)))
            r = L.var(L.sym(tm('rem', x, y, ty), *self.irange(ty)))
            if self.T[ty].get('signed') is False:
                # x = q*y + r, 0 <= r < y
                st.add_eq(L.sub(x, L.add(L.mul(q, y), r)))
                st.add_ge(L.sub(L.sub(y, r), L.const(1)))
                st.add_ge(L.sub(x, q))
            return ('i', q if op == 'Div' else r, ty)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if self.tk(ty) == 'bool' or (a[0] == 'b' and b[0] == 'b'):
                x = a[1] if a[0] == 'b' else B.var(('t', fresh('b')))
                y = b[1] if b[0] == 'b' else B.var(('t', fresh('b')))
                return ('b', {'BitAnd': B.land, 'BitOr': B.lor, 'BitXor': B.xor}[op](x, y))
            if op == 'BitAnd' and self.T[ty].get('signed') is False:
                for v, m in ((a, b), (b, a)):
                    if m[0] == 'i' and not m[1][1] and v[0] == 'i' and v[1][1]:
                        full = (1 << self.bits_of(ty)) - 1
                        for low in (m[1][0] + 1, (full ^ m[1][0]) + 1):
                            if low > 1 and low & (low - 1) == 0 and low <= full and all(k % low == 0 for _, k in v[1][1]):
                                r = v[1][0] % low
                                return ('i', L.const(r) if low == m[1][0] + 1 else L.add(v[1], L.const(-r)), ty)
            if self.nobits and self.bits_of(ty) >= self.nobits and not any(v[0] == 'i' and not v[1][1] for v in (a, b)):
                return ('i', self.isym(fresh('bits'), ty), ty)
            x, y = self.to_bv(st, a, ty), self.to_bv(st, b, ty)
            f = {'BitAnd': B.land, 'BitOr': B.lor, 'BitXor': B.xor}[op]
            return self.norm_bv(('bv', tuple(f(p, q) for p, q in zip(x, y)), ty))
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            if b[0] == 'i' and not b[1][1]:
                k = b[1][0]
                n = self.bits_of(ty)
                x = self.to_bv(st, a, ty)
                if op.startswith('Shl'):
                    r = ((0,) * k + x)[:n]
                else:
                    r = x[k:] + (0,) * min(k, n)
                    r = r[:n]
                return self.norm_bv(('bv', r, ty))
            if op.startswith('Shl') and a == ('i', L.const(1), ty) and b[0] in ('dsc', 'bv'):
                n = self.bits_of(ty)
                bb = self.to_bv(st, b, ty)
                out = []
                for i in range(n):
                    c = 1
                    for j, x in enumerate(bb):
                        c = B.land(c, x if (i >> j) & 1 else B.lnot(x))
                    out.append(c)
                return self.norm_bv(('bv', tuple(out), ty))
            return ('i', self.isym(fresh('sh'), ty), ty)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if self.tk(ty) in ('ref', 'ptr', 'fnptr'):
                n = 1 if a == b else B.var(('t', fresh('ptreq')))
                if a[0] == 'ref' and b[0] == 'ref' and a[1][0] == 'L' and b[1][0] == 'L' and a[1] != b[1]:
                    n = 0
                return ('b', B.lnot(n) if op == 'Ne' else n)
            return ('b', self.cmp(st, op, a, b, ty))
        return None

    def norm_bv(self, v):
        if all(x <= 1 for x in v[1]):
            n = sum(x << i for i, x in enumerate(v[1]))
            if self.T[v[2]].get('signed') and v[1] and v[1][-1]:
                n -= 1 << len(v[1])
            return ('i', L.const(n), v[2])
        return v

    def cast(self, st, kind, v, fty, tty):
        tk, fk = self.T[tty]['k'], self.T[fty]['k']
        if kind.startswith('IntToInt') or (tk in ('int', 'char') and fk in ('int', 'char', 'bool') and 'Transmute' not in kind):
            if v[0] == 'b':
                return self.norm_bv(('bv', self.to_bv(st, v, tty), tty))
            if v[0] in ('bv', 'dsc'):
                if self.T[fty].get('signed') and v[0] == 'bv':
                    return ('i', self.isym(fresh('cast'), tty), tty)
                if v[0] == 'dsc':
                    ds = [self.T[v[1][1]]['variants'][i]['discr'] for i in self.live_variants(v[1][1])]
                    if min(ds) < 0:
                        return ('i', self.isym(tm('castdsc', v[1], tty), tty), tty)
                return self.norm_bv(('bv', self.to_bv(st, v, tty), tty))
            return self.wrap(st, self.to_lin(st, v, fty), tty, 'cast')
        if 'PointerCoercion' in kind:
            if 'Unsize' in kind and v[0] == 'ref':
                te = self.T[self.T[tty]['e']] if tk in ('ref', 'ptr') else None
                if te and te['k'] == 'slice':
                    fe = self.T[self.T[fty]['e']]
                    n = fe.get('len')
                    return ('sl', v[1], v[2], L.const(0), L.const(n) if n is not None else self.lensym(fresh('len')))
            return v
        if tk in ('ref', 'ptr') and fk in ('ref', 'ptr'):
            return v
        if 'Transmute' in kind:
            if tk == fk and v[0] in ('ref', 'sl', 'fn'):
                return v
            if tk in ('int', 'char') and fk in ('int', 'char'):
                return self.wrap(st, self.to_lin(st, v, fty), tty)
        return self.mk(fresh('cast', kind), tty)

    def rvalue(self, st, fid, body, r, destty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, body, r[1])
        if k == 'ref' or k == 'rawptr':
            cell, path, ty = self.resolve(st, fid, body, r[2])
            if path and path[-1][0] == 'sub':
                p = path[-1]
                return ('sl', cell, path[:-1], p[1], p[2])
            if ty is not None and self.tk(ty) in ('slice', 'str'):
                v = self.getp(st, self.rcell(st, cell), path, None, cell, ())
                return ('sl', cell, path, L.const(0), self.seqlen(v))
            return ('ref', cell, path)
        if k == 'bin':
            a = self.operand(st, fid, body, r[2])
            b = self.operand(st, fid, body, r[3])
            v = self.arith(st, r[1], a, b, r[4])
            if v is None:
                v = self.mk(fresh('bin'), destty)
            return v
        if k == 'un':
            a = self.operand(st, fid, body, r[2])
            if r[1] == 'Not':
                if a[0] == 'b':
                    return ('b', B.lnot(a[1]))
                if self.tk(r[3]) == 'int':
                    return self.norm_bv(('bv', tuple(B.lnot(x) for x in self.to_bv(st, a, r[3])), r[3]))
            if r[1] == 'Neg' and a[0] == 'i':
                return self.wrap(st, L.scale(a[1], -1), r[3])
            if r[1] == 'PtrMetadata':
                if a[0] == 'sl':
                    return ('i', a[4], destty)
                if a[0] == 'sym':
                    return ('i', self.lensym(tm('len', tm('deref', a[1]))), destty)
            return self.mk(fresh('un'), destty)
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fid, body, r[2]), r[4], r[3])
        if k == 'discr':
            v = self.read(st, fid, body, r[1])
            if v[0] == 'en':
                self.en_valid(st, v)
                return ('dsc', v)
            if v[0] == 'sym' and self.tk(v[2]) == 'enum':
                return ('dsc', self.mk(v[1], v[2]))
            return self.mk(fresh('discr'), destty)
        if k == 'agg':
            fs = tuple(self.operand(st, fid, body, o) for o in r[3])
            kind = r[1]
            ty = r[4]
            if kind == 'adt':
                if self.tk(ty) == 'enum':
                    return self.en_const(ty, r[2], fs)
                if self.tk(ty) == 'union':
                    return self.mk(fresh('union'), ty)
                return ('st', fs)
            if kind in ('tuple', 'closure', 'array'):
                return ('st', fs)
            if kind == 'rawptr':
                p, m = fs
                if p[0] == 'ref' and m[0] == 'i':
                    return ('sl', p[1], p[2], L.const(0), m[1])
                if p[0] == 'ref':
                    return p
            return self.mk(fresh('agg'), ty)
        if k == 'repeat':
            v = self.operand(st, fid, body, r[1])
            n = r[2]
            if n is not None and n <= 16:
                return ('st', (v,) * n)
            return ('seq', L.const(n) if n is not None else self.lensym(fresh('len')), None, None)
        return self.mk(fresh('rv', k), destty)

    # ------------------------------------------------------------- writes
    def store(self, st, fid, body, place, val, site):
        cell, path, ty = self.resolve(st, fid, body, place)
        self.store_at(st, cell, path, val, place[2], site)

    def store_at(self, st, cell, path, val, ty, site):
        if cell[0] != 'L' or path:
            for p in self.plugins:
                p.write(self, st, cell, path, val, ty, site)
        self.put(st, cell, path, val, ty)

    # ------------------------------------------------------------- joins
    def shape(self, st, v, depth=3):
        k = v[0]
        if k == 'en':
            if all(n <= 1 for n in v[2]):
                i = sum(n << b for b, n in enumerate(v[2]))
            else:
                return '?'
            if depth == 0:
                return ('en', i)
            for pv, fs in v[3]:
                if pv == i:
                    return ('en', i, tuple(self.shape(st, f, depth - 1) for f in fs))
            return ('en', i)
        if k == 'b':
            return v if v[1] <= 1 else 'b'
        if k == 'st':
            if depth == 0:
                return 'st'
            return ('st',) + tuple(self.shape(st, f, depth - 1) for f in v[1])
        if k == 'ref':
            return ('ref', v[1], tuple(p[:2] if p[0] != 'ix' else ('ix',) for p in v[2]))
        if k == 'sl':
            return ('sl', v[1], tuple(p[:2] if p[0] != 'ix' else ('ix',) for p in v[2]))
        if k == 'guard' or k == 'fn':
            return v
        return k

    def key(self, st, fid, body, b):
        live = body.liveness()[b]
        loc = []
        for l in sorted(live):
            v = st.mem.get(('L', fid, l))
            if v is not None:
                loc.append((l, self.shape(st, v)))
        return (tuple(p.key(st) for p in self.plugins), tuple(loc))

    def vterms(self, v, acc):
        """Collect the terms, integer symbols and BDD vars a value mentions."""
        m = self.live_memo.get(v)
        if m is None:
            m = (set(), set(), set())
            self._vt(v, m)
            self.live_memo[v] = m
        acc[0].update(m[0])
        acc[1].update(m[1])
        acc[2].update(m[2])

    def _vt(self, v, m):
        k = v[0]
        if k == 'i':
            m[1].update(s for s, _ in v[1][1])
        elif k == 'b':
            m[2].update(B.support(v[1]))
        elif k == 'bv':
            for n in v[1]:
                m[2].update(B.support(n))
        elif k == 'st':
            for x in v[1]:
                self._vt(x, m)
        elif k == 'en':
            for n in v[2]:
                m[2].update(B.support(n))
            for _, fs in v[3]:
                for x in fs:
                    self._vt(x, m)
            if v[4] is not None:
                m[0].add(v[4])
        elif k == 'dsc':
            self._vt(v[1], m)
        elif k == 'sl':
            m[1].update(s for s, _ in v[3][1])
            m[1].update(s for s, _ in v[4][1])
            self._vc(v[1], v[2], m)
        elif k == 'ref':
            self._vc(v[1], v[2], m)
        elif k == 'seq':
            for l in v[1:4]:
                if l is not None:
                    m[1].update(s for s, _ in l[1])
        elif k == 'guard':
            self._vt(v[1], m)
        elif k == 'sym':
            m[0].add(v[1])
        elif k == 'it':
            for x in v[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    self._vt(x, m)
                elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int):
                    m[1].update(s for s, _ in x[1])

    def _vc(self, cell, path, m):
        if cell[0] == 'D':
            m[0].add(cell[1])
        for p in path:
            if p[0] == 'ix':
                m[1].update(s for s, _ in p[1][1])
            if p[0] == 'sub':
                m[1].update(s for s, _ in p[1][1])
                m[1].update(s for s, _ in p[2][1])

    def roots_live(self, term, live, syms=()):
        """A term is live when it, or a term it is derived from, is live or is an entry root."""
        seen = []
        st = [term]
        while st:
            t = st.pop()
            if t in live:
                return True
            if t.parts[0] in ('arg', 'mdata', 'static', 'constv', 'entry', 'constbase'):
                return True
            if t.parts[0] == 'phi':
                continue        # named after a place, not derived from what its name mentions
            if t.parts[0] in ('combining', 'uwidth'):
                # facts about a character
                for s, _ in t.parts[1][1]:
                    if s in syms:
                        return True
                    if isinstance(L.SYM[s][0], Tm):
                        st.append(L.SYM[s][0])
            for p in t.parts[1:]:
                if isinstance(p, Tm):
                    st.append(p)
                elif isinstance(p, tuple):
                    self._tuple_terms(p, st, live)
        return False

    def _tuple_terms(self, p, st, live):
        for x in p:
            if isinstance(x, Tm):
                st.append(x)
            elif isinstance(x, tuple):
                self._tuple_terms(x, st, live)

    def gc(self, st):
        acc = (set(), set(), set())
        for c, v in st.mem.items():
            self.vterms(v, acc)
            if c[0] == 'D':
                acc[0].add(c[1])
        terms, syms, bvars = acc
        live_t = set(terms)

        def sym_live(s):
            if s in syms:
                return True
            t = L.SYM[s][0]
            if isinstance(t, tuple):
                return sym_live(t[1]) and sym_live(t[2])
            return isinstance(t, Tm) and self.roots_live(t, live_t, syms)

        def var_live(v):
            if v in bvars:
                return True
            n = B.names[v]
            if n[0] in ('ge', 'eq'):
                return all(sym_live(s) for s, _ in n[1][1])
            if n[0] == 'bit':
                return sym_live(n[1]) if isinstance(n[1], int) else n[1] in live_t
            if n[0] == 'same':
                return self.roots_live(n[1], live_t, syms) and self.roots_live(n[2], live_t, syms)
            return self.roots_live(n[1], live_t, syms)
        dead = [v for v in B.support(st.bdd) if not var_live(v)]
        if dead:
            st.bdd = B.exists(st.bdd, dead)
        # eliminate dead symbols by equalities, then drop
        deadsyms = set()
        for l in list(st.ge) + list(st.eq) + list(st.ne):
            for s, _ in l[1]:
                if s not in deadsyms and not sym_live(s):
                    deadsyms.add(s)
        if deadsyms:
            self.eliminate(st, deadsyms)

    def eliminate(self, st, dead):
        ge, eq, ne = set(st.ge), set(st.eq), set(st.ne)
        for s in list(dead):
            piv = None
            for l in eq:
                for t, c in l[1]:
                    if t == s and abs(c) == 1:
                        piv = (l, c)
                        break
                if piv:
                    break
            if piv:
                l, c = piv
                eq.discard(l)
                # s = -(rest)/c
                rest = L.sub(l, (0, ((s, c),)))
                e = L.scale(rest, -c)
                m = {s: e}
                ge = {L.subst(x, m) for x in ge}
                eq = {L.subst(x, m) for x in eq}
                ne = {L.subst(x, m) for x in ne}
                continue
            # Fourier-Motzkin when small
            lo = [l for l in ge if dict(l[1]).get(s, 0) > 0]
            hi = [l for l in ge if dict(l[1]).get(s, 0) < 0]
            eqs = [l for l in eq if dict(l[1]).get(s, 0)]
            ge = {l for l in ge if not dict(l[1]).get(s, 0)}
            ne = {l for l in ne if not dict(l[1]).get(s, 0)}
            eq = {l for l in eq if not dict(l[1]).get(s, 0)}
            if not eqs and len(lo) * len(hi) <= 16:
                for a in lo:
                    for b in hi:
                        ca, cb = dict(a[1])[s], -dict(b[1])[s]
                        ge.add(L.add(L.scale(a, cb), L.scale(b, ca)))
                slo, shi = L.SYM[s][1], L.SYM[s][2]
                if slo is not None:
                    for b in hi:
                        cb = -dict(b[1])[s]
                        ge.add(L.add(b, (-cb * slo, ((s, cb),))))
                if shi is not None:
                    for a in lo:
                        ca = dict(a[1])[s]
                        ge.add(L.add(a, (ca * shi, ((s, -ca),))))
        st.ge = frozenset(l for l in ge if l[1])
        st.eq = frozenset(l for l in eq if l[1])
        st.ne = frozenset(l for l in ne if l[1])

    def bitlike(self, v):
        """An integer that has been used as a flag word."""
        l = v[1]
        if not l[1]:
            return l[0] >= 0
        return len(l[1]) == 1 and l[1][0][1] == 1 and l[0] == 0 and ('bit', l[1][0][0], 0) in B.index

    def jv(self, J, v1, v2, where):
        """Join two values; J collects phi pairs."""
        if v1 == v2:
            return v1
        k1, k2 = v1[0], v2[0]
        if k1 in ('i', 'bv') and k2 in ('i', 'bv') and (k1 == 'bv' or k2 == 'bv'):
            ty = v1[2]
            b1, b2 = self.to_bv(J.s1, v1, ty), self.to_bv(J.s2, v2, ty)
            return ('bv', tuple(J.bphi(x, y, where + ('bit', i)) for i, (x, y) in enumerate(zip(b1, b2))), ty)
        if k1 == 'i' and k2 == 'i':
            if v1[2] in self.bit_types or self.bitlike(v1) and self.bitlike(v2) and (v1[1][1] or v2[1][1]) and not J.namer:
                ty = v1[2]
                b1, b2 = self.to_bv(J.s1, v1, ty), self.to_bv(J.s2, v2, ty)
                return ('bv', tuple(J.bphi(x, y, where + ('bit', i)) for i, (x, y) in enumerate(zip(b1, b2))), ty)
            return ('i', J.iphi(v1[1], v2[1], where, self.irange(v1[2])), v1[2])
        if k1 == 'b' and k2 == 'b':
            return ('b', J.bphi(v1[1], v2[1], where))
        if k1 == 'sym' and k2 == 'st' and self.T[v1[2]]['k'] == 'struct':
            return self.jv(J, self.expand(v1), v2, where)
        if k2 == 'sym' and k1 == 'st' and self.T[v2[2]]['k'] == 'struct':
            return self.jv(J, v1, self.expand(v2), where)
        if k1 == 'st' and k2 == 'st' and len(v1[1]) == len(v2[1]):
            return ('st', tuple(self.jv(J, a, b, where + (i,)) for i, (a, b) in enumerate(zip(v1[1], v2[1]))))
        if k1 == 'en' and k2 == 'en' and v1[1] == v2[1]:
            ty = v1[1]
            bits = tuple(J.bphi(a, b, where + ('d', i)) for i, (a, b) in enumerate(zip(v1[2], v2[2])))
            pay = []
            same_base = v1[4] == v2[4]
            p1, p2 = dict(v1[3]), dict(v2[3])
            for i in self.live_variants(ty):
                nf = len(self.T[ty]['variants'][i]['fields'])
                if nf == 0:
                    continue
                if same_base and v1[4] is not None and i not in p1 and i not in p2:
                    continue
                c1 = i in p1 or v1[4] is not None
                c2 = i in p2 or v2[4] is not None
                pos1 = B.land(J.s1.bdd, self.en_is(v1, i)) != 0
                pos2 = B.land(J.s2.bdd, self.en_is(v2, i)) != 0
                f1 = tuple(self.payload(v1, i, n) for n in range(nf)) if c1 and pos1 else None
                f2 = tuple(self.payload(v2, i, n) for n in range(nf)) if c2 and pos2 else None
                if f1 is None and f2 is None:
                    continue
                if f1 is None:
                    pay.append((i, f2))
                elif f2 is None:
                    pay.append((i, f1))
                else:
                    pay.append((i, tuple(self.jv(J, a, b, where + ('v', i, n)) for n, (a, b) in enumerate(zip(f1, f2)))))
            return ('en', ty, bits, tuple(pay), v1[4] if same_base else None)
        if k1 == 'seq' and k2 == 'seq':
            def jl(a, b, w):
                if a == b:
                    return a
                if a is None or b is None:
                    return None
                if w == 'tag':
                    for p in self.plugins:
                        f = getattr(p, 'join_tag', None)
                        r = f(J, a, b) if f else None
                        if r is not None:
                            return r
                return J.iphi(a, b, where + (w,), (0, MAXI) if w != 'tag' else (None, None))
            return ('seq', jl(v1[1], v2[1], 'len'), jl(v1[2], v2[2], 'cap'), jl(v1[3], v2[3], 'tag'))
        if k1 == 'st' and k2 == 'seq':
            return self.jv(J, ('seq', L.const(len(v1[1])), None, None), v2, where)
        if k2 == 'st' and k1 == 'seq':
            return self.jv(J, v1, ('seq', L.const(len(v2[1])), None, None), where)
        if k1 == 'sl' and k2 == 'sl' and v1[1] == v2[1] and v1[2] == v2[2]:
            return ('sl', v1[1], v1[2], J.iphi(v1[3], v2[3], where + ('start',), (0, MAXI)), J.iphi(v1[4], v2[4], where + ('len',), (0, MAXI)))
        if k1 == 'dsc' and k2 == 'dsc' and v1[1][1] == v2[1][1]:
            return ('dsc', self.jv(J, v1[1], v2[1], where))
        if k1 == 'it' and k2 == 'it' and v1[1] == v2[1] and len(v1) == len(v2):
            out = ['it', v1[1]]
            for i, (a, b) in enumerate(zip(v1[2:], v2[2:])):
                if a == b:
                    out.append(a)
                elif isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], int) and isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], int):
                    out.append(J.iphi(a, b, where + ('it', i), (0, MAXI)))
                elif isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and isinstance(b[0], str):
                    out.append(self.jv(J, a, b, where + ('it', i)))
                else:
                    return TOP
            return tuple(out)
        if k1 == 'ref' and k2 == 'ref' and v1[1] == v2[1] and len(v1[2]) == len(v2[2]):
            ok = True
            out = []
            for i, (p, q) in enumerate(zip(v1[2], v2[2])):
                if p == q:
                    out.append(p)
                elif p[0] == 'ix' and q[0] == 'ix' and p[2] == q[2]:
                    out.append(('ix', J.iphi(p[1], q[1], where + ('ix', i), (0, MAXI)), p[2]))
                else:
                    ok = False
                    break
            if ok:
                return ('ref', v1[1], tuple(out))
        if k1 == 'sym' and k2 == 'sym' and v1[2] == v2[2]:
            t = self.T[v1[2]]
            if v1[1] != v2[1] and t['k'] == 'struct' and t['local'] and 0 < len(t['variants'][0]['fields']) <= 4 and all(self.T[f[1]]['k'] == 'int' for f in t['variants'][0]['fields']):
                return self.jv(J, self.expand(v1), self.expand(v2), where)
            return ('sym', J.sphi(v1, v2, where), v1[2])
        return TOP

    def join(self, s1, s2, namer=None, pairs_only=False, widen=False):
        self.joins += 1
        J = JoinCtx(self, s1, s2, namer)
        mem = {}
        for c in set(s1.mem) | set(s2.mem):
            v1, v2 = s1.mem.get(c), s2.mem.get(c)
            if v1 is None or v2 is None:
                if c[0] in ('L', 'R', 'G'):
                    if c[0] == 'G':
                        raise Exception('ghost cell %r missing on one side of a join' % (c,))
                    continue
                d = self.default_cell(c)
                v1 = d if v1 is None else v1
                v2 = d if v2 is None else v2
            if v1 is v2 or v1 == v2:
                mem[c] = v1
            else:
                mem[c] = self.jv(J, v1, v2, (c,))
        r = St()
        r.mem = mem
        J.finish(r, widen)
        self.gc(r)
        return r, J

    # ------------------------------------------------------------- execution
    def fid(self, ctx):
        r = self.fids.get(ctx)
        if r is None:
            r = len(self.fids)
            self.fids[ctx] = r
        return r

    def panic(self, st, kind, loc):
        chain = [(b.path, l) for b, l in self.frames]
        for p in self.plugins:
            p.on_panic(self, st, kind, loc, chain)

    def run(self, body, args, st, ctx=()):
        """Execute body on argument values; -> [(st, retval)], merged by key."""
        if len(self.frames) > 40:
            raise Budget('call depth')
        depth = sum(1 for b, _ in self.frames if b is body)
        if depth > 3:
            raise Budget('recursion in ' + body.path)
        self.analysed[body.id] = self.analysed.get(body.id, 0) + 1
        fid = self.fid(ctx + (body.id,))
        st = st.copy()
        args = list(args)
        if body.spread is not None and len(args) >= body.spread:
            n = body.spread - 1
            args = args[:n] + [('st', tuple(args[n:]))]
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        self.frames.append([body, body.loc])
        try:
            rets = self.region(body, fid, ctx, None, {0: [st]})
        finally:
            self.frames.pop()
        # merge by (plugin key, shape of return value)
        out = {}
        for s in rets:
            rv = s.mem.pop(('L', fid, 0), UNIT)
            for c in [c for c in s.mem if c[0] == 'L' and c[1] == fid]:
                del s.mem[c]
            s.mem[('R',)] = rv
            k = (tuple(p.key(s) for p in self.plugins), self.shape(s, rv))
            if k in out:
                out[k], _ = self.join(out[k], s)
            else:
                out[k] = s
        res = []
        for s in out.values():
            rv = s.mem.pop(('R',))
            res.append((s, rv))
        return res

    def prune(self, st, fid, body, b):
        live = body.liveness()[b]
        dead = [c for c in st.mem if c[0] == 'L' and c[1] == fid and c[2] not in live]
        for c in dead:
            del st.mem[c]

    def region(self, body, fid, ctx, loop, entry):
        """Run the blocks of `loop` (or the whole body).  entry: block -> [states].
        For the whole body returns the return states; for a loop returns
        (backs, exits, rets)."""
        cfg = body.cfg()
        ix = cfg['ix']
        pending = {}
        rets, backs, exits = [], [], {}
        head = loop[0] if loop else None
        blocks = loop[1] if loop else None

        def arrive(b, s, first=False):
            if not first and loop is not None:
                if b == head:
                    backs.append(s)
                    return
                if b not in blocks:
                    exits.setdefault(b, []).append(s)
                    return
            self.prune(s, fid, body, b)
            k = self.key(s, fid, body, b)
            d = pending.setdefault(b, {})
            if k in d:
                d[k], _ = self.join(d[k], s)
            else:
                d[k] = s
        for b, ss in entry.items():
            for s in ss:
                arrive(b, s, True)
        while pending:
            b = min(pending, key=lambda x: ix[x])
            states = pending.pop(b)
            if b in cfg['loops'] and b != head:
                bk, ex, rt = self.loop(body, fid, ctx, (b, cfg['loops'][b]), states)
                rets.extend(rt)
                for t, ss in ex.items():
                    for s in ss:
                        arrive(t, s)
                continue
            for s in states.values():
                for t, s2 in self.block(body, fid, ctx, b, s):
                    if t is None:
                        rets.append(s2)
                    else:
                        arrive(t, s2)
        if loop is None:
            return rets
        return backs, exits, rets

    def loop(self, body, fid, ctx, loop, states):
        heads = dict(states)
        it = 0
        rounds = {}
        while True:
            it += 1
            self.loop_iters += 1
            if it > 60:
                raise Budget('loop in %s does not stabilise' % body.path)
            cur = [s.copy() for s in heads.values()]
            backs, exits, rets = self.region(body, fid, ctx, loop, {loop[0]: cur})
            changed = False
            grouped = {}
            for s in backs:
                self.prune(s, fid, body, loop[0])
                for p in self.plugins:
                    p.at_head(self, s)
                k = self.key(s, fid, body, loop[0])
                if k in grouped:
                    grouped[k], _ = self.join(grouped[k], s)
                else:
                    grouped[k] = s
            for k, s in grouped.items():
                if k not in heads:
                    heads[k] = s
                    changed = True
                else:
                    n = rounds.get(k, 0)
                    new, ch = self.loop_join(heads[k], s, (fid, loop[0], k), n >= 2)
                    if ch:
                        heads[k] = new
                        rounds[k] = n + 1
                        changed = True
            if not changed:
                return backs, exits, rets

    def iterate(self, st, it, ctx, item_step, cells=()):
        """Drive an iterator value from library code.  item_step(state, item, call)
        -> ([states that go on], [(state, result) that leave]); `cells` are the
        initial values of the loop's own variables, at E.itcell(ctx, n).
        -> ([(state, iterator) when exhausted], leaves, [iterators of leaves])"""
        from . import models as M
        fid = self.fid(ctx + ('iterate',))
        at = lambda n: ('L', fid, n)
        st.mem[at(0)] = it
        for n, v in enumerate(cells):
            st.mem[at(n + 1)] = v
        mine = [at(n) for n in range(len(cells) + 1)]

        def key(s):
            return (tuple(p.key(s) for p in self.plugins), tuple(self.shape(s, s.mem[c]) for c in mine))
        heads, rounds, n_it = {key(st): st}, {}, 0
        while True:
            n_it += 1
            self.loop_iters += 1
            if n_it > 60:
                raise Budget('library iteration does not stabilise')
            grouped, done, leaves = {}, [], []
            for h in [s.copy() for s in heads.values()]:
                for s, item, it2 in M.it_next(self, h, h.mem[at(0)]):
                    s.mem[at(0)] = it2
                    if item is None:
                        done.append(s)
                        continue
                    on, off = item_step(s, item, at)
                    leaves += off
                    for s2 in on:
                        k = key(s2)
                        if k in grouped:
                            grouped[k], _ = self.join(grouped[k], s2)
                        else:
                            grouped[k] = s2
            changed = False
            for k, s in grouped.items():
                if k not in heads:
                    heads[k] = s
                    changed = True
                    continue
                n = rounds.get(k, 0)
                new, ch = self.loop_join(heads[k], s, (fid, 'it', k), n >= 2)
                if ch:
                    heads[k] = new
                    rounds[k] = n + 1
                    changed = True
            if not changed:
                break
        return done, leaves, at

    def call_cell(self, s, cell, fty, args, ctx):
        """Call the closure kept in a memory cell (its state persists)."""
        t = self.T[fty]
        if t['k'] != 'closure':
            return self.call_value(s, s.mem[cell], fty, args, ctx)
        bd = self.P.bodies.get(t.get('body'))
        if bd is None:
            return None
        self.celltys.setdefault(cell, fty)
        a0 = ('ref', cell, ()) if self.T[bd.locals[1][0]]['k'] == 'ref' else s.mem[cell]
        return self.run(bd, [a0] + list(args), s, ctx)

    def loop_join(self, head, back, lid, widen):
        changed = {}
        namer = (lambda where: tm('phi', lid, where))
        for _ in range(40):
            b2 = self.rename(back, changed) if changed else back
            r, J = self.join(head, b2, namer, widen=widen)
            more = False
            for phi, l1, l2 in J.ipairs:
                if l1 == L.var(phi) and l2 != L.var(phi) and ('s', phi) not in changed:
                    changed[('s', phi)] = L.SYM[phi]
                    more = True
            for var, n1, n2 in J.bpairs:
                vi = B.nodes[var][0]
                if n1 == var and n2 != var and ('b', vi) not in changed:
                    changed[('b', vi)] = True
                    more = True
            for t, v1, v2 in J.spairs:
                if v1[1] is t and v2[1] is not t and ('t', t) not in changed:
                    changed[('t', t)] = True
                    more = True
            if not more:
                break
        same = r.mem == head.mem and r.bdd == head.bdd
        if same:
            # numeric: every head constraint kept?
            for l in head.ge:
                if l not in r.ge and not r.ent_ge(l):
                    same = False
                    break
            if same:
                for l in head.eq:
                    if l not in r.eq and not r.ent_eq(l):
                        same = False
                        break
            if same and not head.ne <= r.ne:
                same = False
        return r, not same

    # renaming of loop symbols (old iteration values)
    def rename(self, st, ch):
        sm, bm, tmap = {}, {}, {}
        for k in ch:
            if k[0] == 's':
                t, lo, hi = L.SYM[k[1]]
                sm[k[1]] = L.var(L.sym(tm('old', t if isinstance(t, Tm) else str(t)), lo, hi))
            elif k[0] == 'b':
                bm[k[1]] = B.var(('t', tm('old', str(B.names[k[1]]))))
            else:
                tmap[k[1]] = tm('old', k[1])
        memo = {}

        def rl(l):
            return L.subst(l, sm) if l is not None else None

        def rb(n):
            return B.compose(n, bm) if bm else n

        def rt(t):
            if not tmap:
                return t
            r = tmap.get(t)
            if r is not None:
                return r
            if any(isinstance(p, Tm) for p in t.parts):
                np_ = tuple(rt(p) if isinstance(p, Tm) else p for p in t.parts)
                if np_ != t.parts:
                    return tm(*np_)
            return t

        def rc(c):
            if c[0] == 'D' and tmap:
                n = rt(c[1])
                if n is not c[1]:
                    nc = ('D', n)
                    if c in self.celltys:
                        self.celltys.setdefault(nc, self.celltys[c])
                    return nc
            return c

        def rp(p):
            return tuple((('ix', rl(x[1]), x[2]) if x[0] == 'ix' else ('sub', rl(x[1]), rl(x[2])) if x[0] == 'sub' else x) for x in p)

        def rv(v):
            r = memo.get(v)
            if r is None:
                r = rv_(v)
                memo[v] = r
            return r

        def rv_(v):
            k = v[0]
            if k == 'i':
                return ('i', rl(v[1]), v[2])
            if k == 'b':
                return ('b', rb(v[1]))
            if k == 'bv':
                return ('bv', tuple(rb(x) for x in v[1]), v[2])
            if k == 'st':
                return ('st', tuple(rv(x) for x in v[1]))
            if k == 'en':
                return ('en', v[1], tuple(rb(x) for x in v[2]), tuple((i, tuple(rv(x) for x in fs)) for i, fs in v[3]), rt(v[4]) if v[4] is not None else None)
            if k == 'dsc':
                return ('dsc', rv(v[1]))
            if k == 'ref':
                return ('ref', rc(v[1]), rp(v[2]))
            if k == 'sl':
                return ('sl', rc(v[1]), rp(v[2]), rl(v[3]), rl(v[4]))
            if k == 'seq':
                return ('seq', rl(v[1]), rl(v[2]), rl(v[3]))
            if k == 'guard':
                return ('guard', rv(v[1]))
            if k == 'sym':
                return ('sym', rt(v[1]), v[2])
            if k == 'it':
                return tuple(x if not isinstance(x, tuple) else rv(x) if x and isinstance(x[0], str) else rl(x) if len(x) == 2 and isinstance(x[0], int) else x for x in v)
            return v
        r = St()
        r.mem = {rc(c): rv(v) for c, v in st.mem.items()}
        r.ge = frozenset(rl(l) for l in st.ge)
        r.eq = frozenset(rl(l) for l in st.eq)
        r.ne = frozenset(rl(l) for l in st.ne)
        # atoms mentioning renamed symbols are renamed too
        m = dict(bm)
        for v in B.support(st.bdd):
            n = B.names[v]
            if n[0] in ('ge', 'eq') and sm:
                l2 = rl(n[1])
                if l2 != n[1]:
                    m[v] = ge_atom(l2) if n[0] == 'ge' else eq_atom(l2)
            elif n[0] == 'bit' and isinstance(n[1], int) and n[1] in sm:
                m[v] = B.var(('bit', sm[n[1]][1][0][0], n[2]))
            elif n[0] in ('t', 'd') and tmap:
                t2 = rt(n[1])
                if t2 is not n[1]:
                    m[v] = B.var((n[0], t2) + n[2:])
        r.bdd = B.compose(st.bdd, m) if m else st.bdd
        return r

    # ------------------------------------------------------------- one block
    def block(self, body, fid, ctx, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps')
        bl = body.blocks[b]
        for s in bl['s']:
            k = s[0]
            if k == '=':
                if s[3]:
                    self.frames[-1][1] = s[3]
                v = self.rvalue(st, fid, body, s[2], s[1][2])
                self.store(st, fid, body, s[1], v, (body, s[3]))
            elif k == 'setdiscr':
                cell, path, ty = self.resolve(st, fid, body, s[1])
                v = self.getp(st, self.rcell(st, cell), path, None, cell, ())
                if v[0] == 'en':
                    n = self.nbits(v[1])
                    self.store_at(st, cell, path, ('en', v[1], tuple((s[2] >> i) & 1 for i in range(n)), v[3], v[4]), ty, (body, s[3]))
                else:
                    self.store_at(st, cell, path, TOP, ty, (body, s[3]))
            elif k == 'dead':
                st.mem.pop(('L', fid, s[1]), None)
            elif k == 'live':
                st.mem.pop(('L', fid, s[1]), None)
            elif k == 'assume':
                v = self.operand(st, fid, body, s[1])
                if v[0] == 'b':
                    st = self.assume(st, v[1])
                    if st is None:
                        return []
            elif k == 'copynonoverlap':
                pass
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [(None, st)]
        if k in ('unreachable', 'resume', 'terminate'):
            return []
        if k == 'switch':
            return self.switch(body, fid, t, st)
        if k == 'assert':
            self.frames[-1][1] = t[7] or self.frames[-1][1]
            v = self.operand(st, fid, body, t[1])
            n = v[1] if v[0] == 'b' else B.var(('t', fresh('assert')))
            good = n if t[2] else B.lnot(n)
            bad = self.assume(st.copy(), B.lnot(good)) if good != 1 else None
            if bad is not None:
                self.panic(bad, 'assert-' + t[3], t[7])
            g = self.assume(st, good)
            return [(t[5], g)] if g is not None else []
        if k == 'drop':
            self.frames[-1][1] = t[6] or self.frames[-1][1]
            cell, path, ty = self.resolve(st, fid, body, t[1])
            outs = self.drop(st, t[2], t[3], cell, path, ctx + ((body.id, b),), t[6])
            return [(t[4], s) for s in outs]
        if k == 'call':
            return self.call(body, fid, ctx, b, t, st)
        raise Budget('terminator ' + k)

    def switch(self, body, fid, t, st):
        v = self.operand(st, fid, body, t[1])
        ty = t[4]
        out = []
        rest = 1
        if v[0] == 'dsc':
            en = v[1]
            vs = self.T[en[1]]['variants']
            seen = set()
            for val, tgt in t[2]:
                node = 0
                for i in self.live_variants(en[1]):
                    if vs[i]['discr'] == val:
                        node = B.lor(node, self.en_is(en, i))
                        seen.add(i)
                if node and B.land(st.bdd, node):
                    s = self.assume(st.copy(), node)
                    if s is not None:
                        out.append((tgt, s))
                rest = B.land(rest, B.lnot(node))
            # only valid variants reach the otherwise edge
            valid = 0
            for i in self.live_variants(en[1]):
                valid = B.lor(valid, self.en_is(en, i))
            rest = B.land(rest, valid)
            if B.land(st.bdd, rest):
                s = self.assume(st.copy(), rest)
                if s is not None:
                    out.append((t[3], s))
            return out
        if v[0] == 'b':
            for val, tgt in t[2]:
                node = v[1] if val else B.lnot(v[1])
                s = self.assume(st.copy(), node)
                if s is not None:
                    out.append((tgt, s))
                rest = B.land(rest, B.lnot(node))
            s = self.assume(st.copy(), rest) if rest else None
            if s is not None:
                out.append((t[3], s))
            return out
        if v[0] == 'bv':
            x = self.to_bv(st, v, ty)
            for val, tgt in t[2]:
                node = 1
                for i, n in enumerate(x):
                    node = B.land(node, n if (val >> i) & 1 else B.lnot(n))
                s = self.assume(st.copy(), node) if node else None
                if s is not None:
                    out.append((tgt, s))
                rest = B.land(rest, B.lnot(node))
            s = self.assume(st.copy(), rest) if rest else None
            if s is not None:
                out.append((t[3], s))
            return out
        l = self.to_lin(st, v, ty)
        cur = st.copy()
        for val, tgt in t[2]:
            d = L.sub(l, L.const(val))
            if cur is None:
                break
            n = self.eq_node(cur, d)
            if n == 0:
                continue
            s = cur.copy()
            if s.add_eq(d):
                out.append((tgt, s))
            if n == 1:
                cur = None
                break
            if not cur.add_ne(d):
                cur = None
        if cur is not None:
            out.append((t[3], cur))
        return out

    # ------------------------------------------------------------- drop
    def drop(self, st, ty, inst, cell, path, ctx, loc):
        t = self.T[ty]
        v = None
        if t.get('path') in self.dropm or t['k'] in ('struct',):
            v = self.getp(st, self.rcell(st, cell), path, None, cell, ())
            for p in self.plugins:
                p.on_drop(self, st, ty, cell, path, v, loc)
            m = self.dropm.get(t.get('path'))
            if m:
                m(self, st, ty, cell, path, v, loc)
        if inst and inst in self.P.bodies:
            return [s for s, _ in self.run(self.P.bodies[inst], [('ref', cell, path)], st, ctx)]
        return [st]

    # ------------------------------------------------------------- calls
    def call(self, body, fid, ctx, b, t, st):
        self.frames[-1][1] = t[6] or self.frames[-1][1]
        args = [self.operand(st, fid, body, o) for o in t[2]]
        argtys = [self.opty(body, o) for o in t[2]]
        callee = self.P.callee_of(body, t[1])
        fv = None
        if callee is None:
            fv = self.operand(st, fid, body, t[1])
            if fv[0] == 'fn':
                callee = self.fnvals.get(fv[1])
                if callee is None and fv[1] in self.P.bodies:
                    bd = self.P.bodies[fv[1]]
                    callee = {'path': bd.path, 'full': bd.id, 'krate': bd.krate, 'args': [], 'inst': bd.id, 'rpath': bd.path}
        outs = self.invoke(st, callee, args, argtys, t[3][2], body, ctx, b, t[6], t[2])
        res = []
        for s, v in outs:
            if t[4] is None:
                self.panic(s, 'diverges:' + (callee['path'] if callee else '?'), t[6])
                continue
            if v[0] == 'top':
                v = self.mk(fresh('ret'), t[3][2])
            self.store(s, fid, body, t[3], v, (body, t[6]))
            res.append((t[4], s))
        return res

    def invoke(self, st, callee, args, argtys, destty, body, ctx, b, loc, argops=None):
        c = Call()
        c.callee = callee
        c.args = args
        c.argtys = argtys
        c.destty = destty
        c.body = body
        c.site = (body.id, b)
        c.ctx = ctx + ((body.id, b),)
        c.loc = loc
        c.argops = argops
        if callee is None:
            c.path = c.gpath = '?'
            self.unknown['indirect'] = self.unknown.get('indirect', 0) + 1
            return self.havoc(st, c)
        c.path = callee.get('rpath') or callee['path']
        c.gpath = callee['path']
        self.callsites.add((body.id, b))
        # rust-call ABI: untuple
        if c.gpath in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') and len(args) == 2:
            tup = args[1]
            tt = self.T[argtys[1]]
            if tup[0] == 'st':
                ua = list(tup[1])
            else:
                ua = [self.mk(fresh('targ'), e) for e in tt.get('e', [])]
            f = args[0]
            if f[0] == 'ref':
                f0 = self.getp(st, self.rcell(st, f[1]), f[2], None, f[1], ())
            else:
                f0 = f
            if f0[0] == 'fn' and f0[1] in self.fnvals:
                cal = self.fnvals[f0[1]]
                return self.invoke(st, cal, ua, tt.get('e', []), destty, body, ctx, b, loc)
            inst = callee.get('inst')
            if inst in self.P.bodies:
                bd = self.P.bodies[inst]
                if bd.kind == 'closure' and len(bd.locals) > 1:
                    want = self.T[bd.locals[1][0]]['k']
                    a0 = args[0]
                    if want == 'ref' and a0[0] != 'ref':
                        cell = ('L', self.fid(c.ctx + ('self',)), 0)
                        st.mem[cell] = a0
                        a0 = ('ref', cell, ())
                    return self.run(bd, [a0] + ua, st, c.ctx)
                return self.run(bd, [args[0]] + ua, st, c.ctx)
            return self.havoc(st, c)
        for p in self.plugins:
            r = p.call(self, st, c)
            if r is not None:
                return r
        m = self.models.get(c.path) or self.models.get(c.gpath)
        if m is None:
            for rx, f in self.rxmodels:
                if rx.search(c.path) or rx.search(callee.get('rfull') or callee['full']):
                    m = f
                    break
        if m is not None:
            self.modelled[c.path] = self.modelled.get(c.path, 0) + 1
            r = m(self, st, c)
            if r is not None:
                return r
        if 'ctor' in callee:
            if callee.get('ctor_variant') is not None and self.tk(destty) == 'enum':
                return [(st, self.en_const(destty, callee['ctor_variant'], tuple(args)))]
            return [(st, ('st', tuple(args)))]
        inst = callee.get('inst')
        bd = self.P.bodies.get(inst)
        if bd is not None and bd.path not in self.no_inline:
            return self.run(bd, args, st, c.ctx)
        self.unknown[c.path] = self.unknown.get(c.path, 0) + 1
        return self.havoc(st, c)

    def call_value(self, st, f, fty, args, ctx):
        """Call a closure or function value -> [(state, result)], or None."""
        t = self.T[fty]
        while t['k'] == 'ref':
            if f[0] != 'ref':
                return None
            f = self.getp(st, self.rcell(st, f[1]), f[2], None, f[1], ())
            t = self.T[t['e']]
        if t['k'] == 'fndef' and t['f'].get('inst') in self.P.bodies:
            return self.run(self.P.bodies[t['f']['inst']], list(args), st, ctx)
        bd = self.P.bodies.get(t.get('body')) if t['k'] == 'closure' else None
        if bd is None:
            return None
        a0 = f
        if self.T[bd.locals[1][0]]['k'] == 'ref':
            cell = ('L', self.fid(ctx + ('self',)), 0)
            self.celltys.setdefault(cell, self.T[bd.locals[1][0]]['e'])
            st.mem[cell] = f
            a0 = ('ref', cell, ())
        return self.run(bd, [a0] + list(args), st, ctx)

    def havoc(self, st, c):
        for a, ty in zip(c.args, c.argtys):
            if ty is None:
                continue
            t = self.T[ty]
            if t['k'] in ('ref', 'ptr') and t.get('mut') and a[0] in ('ref', 'sl'):
                self.havoc_at(st, a)
        fs = []
        for a, ty in zip(c.args, c.argtys):
            self.callables(st, a, ty, fs, 0)
        outs = [st]
        if fs and self.depth_cb < 2:
            # unknown code may call the closures it is given: never, once or again
            self.depth_cb += 1
            try:
                cur = [st]
                for n in range(2):
                    nxt = []
                    for s in cur:
                        for f, ty in fs:
                            tys = self.callable_args(ty)
                            if tys is None:
                                continue
                            r = self.call_value(s.copy(), f, ty, [self.mk(fresh('cbarg', c.path, n), x) for x in tys], c.ctx + (('cb', n),))
                            nxt += [s2 for s2, _ in r or ()]
                    outs += nxt
                    cur = nxt
            finally:
                self.depth_cb -= 1
        return [(s, self.mk(fresh('ret', c.path), c.destty)) for s in outs]

    def callables(self, st, v, ty, out, depth):
        """Closures and functions of this program within a value."""
        if ty is None or depth > 6:
            return
        t = self.T[ty]
        k = t['k']
        if k == 'closure':
            if t.get('body') in self.P.bodies:
                out.append((v, ty))
        elif k == 'fndef':
            if t['f'].get('inst') in self.P.bodies:
                out.append((v, ty))
        elif k in ('ref', 'ptr'):
            e = t.get('e')
            if e is not None and v[0] == 'ref' and self.T[e]['k'] in ('closure', 'fndef', 'struct', 'tuple', 'ref'):
                self.callables(st, self.getp(st, self.rcell(st, v[1]), v[2], None, v[1], ()), e, out, depth + 1)
        elif k in ('struct', 'tuple') and v[0] in ('st', 'sym'):
            if v[0] == 'sym':
                return
            if k == 'tuple':
                tys = t.get('e', [])
            else:
                tys = [f[1] for f in t['variants'][0]['fields']]
            for x, y in zip(v[1], tys):
                self.callables(st, x, y, out, depth + 1)

    def callable_args(self, ty):
        t = self.T[ty]
        if t['k'] == 'closure':
            bd = self.P.bodies[t['body']]
            return [x[0] for x in bd.locals[2:1 + bd.argc]]
        bd = self.P.bodies[t['f']['inst']]
        return [x[0] for x in bd.locals[1:1 + bd.argc]]

    def havoc_at(self, st, a):
        if a[0] == 'ref' and not any(p[0] in ('ix', 'sub') for p in a[2]):
            self.put(st, a[1], a[2], TOP, None)

    # ------------------------------------------------------------- helpers for models
    def deref(self, st, a, ety=None):
        if a[0] == 'ref':
            return self.getp(st, self.rcell(st, a[1]), a[2], None, a[1], ())
        if a[0] == 'sym' and ety is not None:
            return self.mk(tm('deref', a[1]), ety)
        return TOP

    def where(self):
        return [(b.path, l) for b, l in self.frames]


def affine_join(e1, e2):
    """Linear relations implied by both equality systems (Karr's join): the
    intersection of two row spaces, by Zassenhaus' algorithm on sparse rows."""
    from fractions import Fraction
    rows = []
    for l in e1:
        r = {}
        for s, c in l[1] + ((-1, l[0]),):
            if c:
                r[(0, s)] = c
                r[(1, s)] = c
        rows.append(r)
    for l in e2:
        rows.append({(0, s): c for s, c in l[1] + ((-1, l[0]),) if c})
    basis = []
    out = set()
    for row in rows:
        row = {k: Fraction(v) for k, v in row.items()}
        for piv, r in basis:
            q = row.get(piv)
            if q:
                f = q / r[piv]
                for k, v in r.items():
                    n = row.get(k, 0) - f * v
                    if n:
                        row[k] = n
                    else:
                        row.pop(k, None)
        left = [k for k in row if k[0] == 0]
        if left:
            # eliminate newest symbols first
            basis.append((max(left), row))
            continue
        if not row:
            continue
        den = 1
        for v in row.values():
            den = den * v.denominator // _gcd(den, v.denominator)
        g = 0
        for v in row.values():
            g = _gcd(abs(int(v * den)), g)
        if any(abs(v * den / g) > 64 for k, v in row.items() if k[1] != -1):
            continue
        rel = L.const(0)
        for k, v in row.items():
            c = int(v * den) // g
            rel = L.add(rel, L.const(c) if k[1] == -1 else L.scale(L.var(k[1]), c))
        if rel[1]:
            out.add(rel)
    return out


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


class JoinCtx:
    def __init__(self, E, s1, s2, namer):
        self.E = E
        self.s1, self.s2 = s1, s2
        self.namer = namer
        self.ipairs, self.bpairs, self.spairs = [], [], []
        self.imemo, self.bmemo, self.smemo = {}, {}, {}
        self.gate = None

    def name(self, where):
        return self.namer(where) if self.namer else fresh('phi')

    def iphi(self, l1, l2, where, rng):
        if l1 == l2:
            return l1
        m = self.imemo.get((l1, l2))
        if m is not None and self.namer is None:
            return L.var(m)
        if self.namer is None:
            # both values known to be equal on one side: the other side's value stands for both
            d = L.sub(l1, l2)
            for s, l in ((self.s2, l1), (self.s1, l2)):
                if s.eq and (d in s.eq or L.scale(d, -1) in s.eq):
                    return l
        s = L.sym(self.name(where), rng[0], rng[1])
        self.imemo[(l1, l2)] = s
        self.ipairs.append((s, l1, l2))
        return L.var(s)

    def bphi(self, n1, n2, where):
        if n1 == n2:
            return n1
        m = self.bmemo.get((n1, n2))
        if m is not None and self.namer is None:
            return m
        if not self.namer:
            # a node on both sides equivalent under the path conditions needs no new variable
            if B.implies(self.s1.bdd, B.iff(n1, n2)):
                return n2
            if B.implies(self.s2.bdd, B.iff(n1, n2)):
                return n1
            if self.gate is None:
                # states on disjoint paths: the path condition selects the value
                f1, f2 = self.s1.bdd, self.s2.bdd
                self.gate = B.simplify(f1, B.lor(f1, f2)) if B.land(f1, f2) == 0 else 0
                if self.gate > 1 and B.size(self.gate) > 400:
                    self.gate = 0
            if self.gate > 1:
                v = B.ite(self.gate, n1, n2)
                if B.size(v) <= 400:
                    self.bmemo[(n1, n2)] = v
                    return v
        sup = B.support(n1) | B.support(n2)
        v = B.var(('t', self.name(where)), B.lowest(sup) if sup else None)
        self.bmemo[(n1, n2)] = v
        self.bpairs.append((v, n1, n2))
        return v

    def sphi(self, v1, v2, where):
        m = self.smemo.get((v1, v2))
        if m is not None and self.namer is None:
            return m
        t = self.name(where)
        self.smemo[(v1, v2)] = t
        self.spairs.append((t, v1, v2))
        return t

    def finish(self, r, widen):
        s1, s2 = self.s1, self.s2
        f1, f2 = s1.bdd, s2.bdd
        if self.E.coarse:
            if f1 == f2:
                r.bdd = f1
            elif not self.namer and B.size(f1) + B.size(f2) <= 60:
                r.bdd = B.lor(f1, f2)
            elif self.E.pinned:
                pin = self.E.pinned
                r.bdd = B.lor(*(B.exists(f, [v for v in B.support(f) if v not in pin]) for f in (f1, f2)))
            else:
                r.bdd = 1
            r.ge, r.eq, r.ne = s1.ge & s2.ge, s1.eq & s2.eq, s1.ne & s2.ne
            return
        for v, n1, n2 in self.bpairs:
            vi = B.nodes[v][0]
            # eliminate the variable's previous meaning (only in side 1, where it denotes itself)
            f1 = B.land(f1, B.iff(v, n1))
            f2 = B.land(f2, B.iff(v, n2))
        r.bdd = B.lor(f1, f2) if f1 != f2 else f1
        if s1.ge == s2.ge and s1.eq == s2.eq and s1.ne == s2.ne and not self.ipairs:
            r.ge, r.eq, r.ne = s1.ge, s1.eq, s1.ne
            return
        e1 = list(s1.eq) + [L.sub(L.var(p), l1) for p, l1, _ in self.ipairs if L.var(p) != l1]
        e2 = list(s2.eq) + [L.sub(L.var(p), l2) for p, _, l2 in self.ipairs if L.var(p) != l2]
        e1, e2 = tuple(e1), tuple(e2)
        g1, g2 = s1.ge, s2.ge
        cand_ge, cand_eq = set(s1.ge), set(s1.eq)
        if not widen:
            cand_ge |= s2.ge
            cand_eq |= s2.eq
            # substitution candidates: l1 = s + k  ==>  s := phi - k
            for side in (1, 2):
                m = {}
                for p, l1, l2 in self.ipairs:
                    l = l1 if side == 1 else l2
                    if len(l[1]) == 1 and l[1][0][1] == 1 and l != L.var(p):
                        m[l[1][0][0]] = L.sub(L.var(p), L.const(l[0]))
                src = s1 if side == 1 else s2
                for p, l1, l2 in self.ipairs:
                    l = l1 if side == 1 else l2
                    if len(l[1]) < 2:
                        continue
                    # c = k * (l1 - phi) + rest
                    s0, k0 = l[1][0]
                    for c in src.ge:
                        ks = dict(c[1])
                        if s0 not in ks or ks[s0] % k0:
                            continue
                        k = ks[s0] // k0
                        if all(ks.get(x) == k * y for x, y in l[1]):
                            cand_ge.add(L.add(c, L.scale(L.sub(L.var(p), l), k)))
                if m:
                    for c in src.ge:
                        cand_ge.add(L.subst(c, m))
                    for c in src.eq:
                        cand_eq.add(L.subst(c, m))
            # affine relations between phis, and of phis to the symbols they meet
            ps = self.ipairs
            if len(e1) + len(e2) <= 60:
                s1e, s2e = set(e1), set(e2)
                cand_eq |= affine_join(sorted(s1e), sorted(s2e))
            for i, (p, a1, a2) in enumerate(ps):
                lo = L.lo_of(L.var(p))
                if lo is None or lo < 0:
                    cand_ge.add(L.var(p))
                if not a1[1] and not a2[1]:
                    cand_ge.add(L.sub(L.var(p), L.const(min(a1[0], a2[0]))))
                    cand_ge.add(L.sub(L.const(max(a1[0], a2[0])), L.var(p)))
                elif not a1[1]:
                    cand_ge.add(L.sub(L.var(p), L.const(a1[0])))
                    cand_ge.add(L.sub(L.const(a1[0]), L.var(p)))
                elif not a2[1]:
                    cand_ge.add(L.sub(L.var(p), L.const(a2[0])))
                    cand_ge.add(L.sub(L.const(a2[0]), L.var(p)))
                for a, g in ((a1, g1), (a2, g2)):
                    if not a[1]:
                        # s >= a on the side where the value is a: maybe s >= value
                        for c in g:
                            if len(c[1]) == 1 and abs(c[1][0][1]) == 1 and c[0] == -c[1][0][1] * a[0]:
                                cand_ge.add(L.sub(L.sub(c, L.const(c[0])), L.scale(L.var(p), c[1][0][1])))
                for l in (a1, a2):
                    cand_ge.add(L.sub(L.var(p), l))
                    cand_ge.add(L.sub(l, L.var(p)))
                for q, b1, b2 in ps[i + 1:]:
                    d1, d2 = L.sub(a1, b1), L.sub(a2, b2)
                    if d1 == d2:
                        cand_eq.add(L.sub(L.sub(L.var(p), L.var(q)), d1))
                    else:
                        if not d1[1]:
                            cand_ge.add(L.sub(L.sub(L.var(p), L.var(q)), d1))
                            cand_ge.add(L.sub(d1, L.sub(L.var(p), L.var(q))))
                        if not d2[1]:
                            cand_ge.add(L.sub(L.sub(L.var(p), L.var(q)), d2))
                            cand_ge.add(L.sub(d2, L.sub(L.var(p), L.var(q))))
                    t1, t2 = L.add(a1, b1), L.add(a2, b2)
                    if t1 == t2:
                        cand_eq.add(L.sub(L.add(L.var(p), L.var(q)), t1))
            # comparison of a phi against symbols its operands are constrained with
            near = {}
            for c in list(s1.ge) + list(s2.ge) + list(s1.eq) + list(s2.eq):
                ss = [s for s, _ in c[1]]
                for p, a1, a2 in ps:
                    if any(s in ss for s, _ in a1[1]) or any(s in ss for s, _ in a2[1]) or p in ss:
                        near.setdefault(p, set()).update(ss)
            for p, ss in near.items():
                if len(ss) > 14:
                    continue
                for s in ss:
                    if s != p:
                        cand_ge.add(L.sub(L.var(s), L.var(p)))
                        cand_ge.add(L.sub(L.var(p), L.var(s)))
        ge, eq = set(), set()
        for c in cand_eq:
            if c[1] and L.entails_eq(g1, e1, c) and L.entails_eq(g2, e2, c):
                eq.add(c)
            elif c[1] and not widen:
                cand_ge.add(c)
                cand_ge.add(L.scale(c, -1))
        for c in cand_ge:
            if not c[1]:
                continue
            if c in eq or L.scale(c, -1) in eq:
                continue
            b = L.lo_of(c)
            if b is not None and b >= 0:
                continue
            if L.entails_ge(g1, e1, c) and L.entails_ge(g2, e2, c):
                ge.add(c)
        # drop candidates entailed by a single other one differing only in the constant
        best = {}
        for c in ge:
            k = c[1]
            if k not in best or c[0] < best[k]:
                best[k] = c[0]
        r.ge = frozenset((c, k) for k, c in best.items())
        r.eq = frozenset(eq)
        ne = set()
        for c in s1.ne:
            if c in s2.ne or L.entails_ge(g2, e2, L.add(c, L.const(-1))) or L.entails_ge(g2, e2, L.add(L.scale(c, -1), L.const(-1))):
                ne.add(c)
        for c in s2.ne - s1.ne:
            if L.entails_ge(g1, e1, L.add(c, L.const(-1))) or L.entails_ge(g1, e1, L.add(L.scale(c, -1), L.const(-1))):
                ne.add(c)
        r.ne = frozenset(ne)
