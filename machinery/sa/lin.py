"""Linear integer terms and the numeric part of the abstract state: a finite
conjunction of linear constraints over symbols (a polyhedra-style domain kept
in constraint form).  Entailment is decided by an exact rational simplex; the
symbols' type ranges take part as bounds.
"""
import math
from fractions import Fraction

# ---- symbols
SYM = []          # id -> (term, lo, hi)
SYMIX = {}


def sym(term, lo=None, hi=None):
    i = SYMIX.get(term)
    if i is None:
        i = len(SYM)
        SYM.append((term, lo, hi))
        SYMIX[term] = i
    return i


_fresh = [0]


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


# ---- linear expressions: (const, ((sym, coef), ...)) sorted by sym
def const(c):
    return (c, ())


def var(s):
    return (0, ((s, 1),))


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def sub(a, b):
    return add(a, scale(b, -1))


def is_const(a):
    return not a[1]


def subst(a, m):
    """Substitute symbols by linear expressions (m: sym -> lin)."""
    if not any(s in m for s, _ in a[1]):
        return a
    r = (a[0], ())
    for s, c in a[1]:
        r = add(r, scale(m[s], c) if s in m else (0, ((s, c),)))
    return r


def show(a):
    out = []
    for s, c in a[1]:
        n = pretty(SYM[s][0])
        out.append(("" if c == 1 else "-" if c == -1 else "%s*" % c) + n)
    if a[0] or not out:
        out.append(str(a[0]))
    return " + ".join(out)


def pretty(t):
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "mul":
        return pretty(SYM[t[1]][0]) + "*" + pretty(SYM[t[2]][0])
    if isinstance(t, tuple):
        return "(" + " ".join(pretty(x) for x in t) + ")"
    return str(t)


def mono(a, b):
    """Symbol standing for the product of symbols a and b (both >= 0 or unknown)."""
    a, b = (a, b) if a <= b else (b, a)
    la, lb = SYM[a][1], SYM[b][1]
    lo = 0 if la is not None and lb is not None and la >= 0 and lb >= 0 else None
    ha, hb = SYM[a][2], SYM[b][2]
    return sym(("mul", a, b), lo, ha * hb if lo == 0 and ha is not None and hb is not None else None)


def mul(a, b):
    """Product of two linear expressions, introducing product symbols."""
    if not a[1]:
        return scale(b, a[0])
    if not b[1]:
        return scale(a, b[0])
    r = (a[0] * b[0], ())
    r = add(r, (0, tuple((s, c * a[0]) for s, c in b[1]) if a[0] else ()))
    r = add(r, (0, tuple((s, c * b[0]) for s, c in a[1]) if b[0] else ()))
    for s, c in a[1]:
        for t, d in b[1]:
            r = add(r, (0, ((mono(s, t), c * d),)))
    return r


def _div(x, a):
    """x / a, exactly; integers stay integers."""
    if a == 1:
        return x
    if a == -1:
        return -x
    r = Fraction(x) / a
    return r.numerator if r.denominator == 1 else r


# ---- simplex (general form, Bland's rule)
class Simplex:
    """Feasibility of a set of rows lo <= row <= hi over bounded variables."""

    def __init__(self):
        self.lo = {}
        self.hi = {}
        self.val = {}
        self.solved = False
        self.rows = {}     # basic -> {nonbasic: coef}

    def bound(self, v, lo, hi):
        if lo is not None and (self.lo.get(v) is None or lo > self.lo[v]):
            self.lo[v] = lo
        if hi is not None and (self.hi.get(v) is None or hi < self.hi[v]):
            self.hi[v] = hi

    def check(self):
        lo, hi, val, rows = self.lo, self.hi, self.val, self.rows
        for v in set(lo) & set(hi):
            if lo[v] > hi[v]:
                return False
        nonbasic = set()
        for r in rows.values():
            nonbasic |= set(r)
        for v in nonbasic | (set(lo) | set(hi)):
            if v in rows:
                continue
            x = 0
            if v in lo and x < lo[v]:
                x = lo[v]
            if v in hi and x > hi[v]:
                x = hi[v]
            val[v] = x
        for b, r in rows.items():
            x = 0
            for n, c in r.items():
                x += c * val[n]
            val[b] = x
        it = 0
        while True:
            it += 1
            if it > 3000:
                return True     # give up: treated as feasible (sound: "not proved")
            bad = None
            for b in sorted(rows):
                if b in lo and val[b] < lo[b]:
                    bad = (b, lo[b], True)
                    break
                if b in hi and val[b] > hi[b]:
                    bad = (b, hi[b], False)
                    break
            if bad is None:
                self.solved = True
                return True
            b, target, below = bad
            r = rows[b]
            piv = None
            for n in sorted(r):
                c = r[n]
                up = (c > 0) == below
                if up and (n not in hi or val[n] < hi[n]):
                    piv = n
                    break
                if not up and (n not in lo or val[n] > lo[n]):
                    piv = n
                    break
            if piv is None:
                return False
            # pivot b <-> piv
            a = r[piv]
            theta = _div(target - val[b], a)
            val[b] = target
            val[piv] += theta
            for k, rk in rows.items():
                if k != b and piv in rk:
                    val[k] += rk[piv] * theta
            newr = {n: _div(-c, a) for n, c in r.items() if n != piv}
            newr[b] = _div(1, a)
            del rows[b]
            for k, rk in rows.items():
                c = rk.pop(piv, None)
                if c:
                    for n, d in newr.items():
                        x = rk.get(n, 0) + c * d
                        if x:
                            rk[n] = x
                        else:
                            rk.pop(n, None)
            rows[piv] = newr


_feas_cache = {}
STATS = {"lp": 0, "lp_hit": 0, "model_hit": 0}


def _products(ineqs, eqs):
    """Products of a constraint with a non-negative symbol, for product symbols in play."""
    monos = {}
    for l in list(ineqs) + list(eqs):
        for s, _ in l[1]:
            t = SYM[s][0]
            if isinstance(t, tuple) and t[0] == "mul":
                monos[s] = (t[1], t[2])
    if not monos:
        return [], []
    factors = set()
    for a, b in monos.values():
        factors |= {a, b}
    oi, oe = [], []
    pairs = set(monos.values())
    key = lambda s, f: (s, f) if s <= f else (f, s)
    for f in sorted(factors):
        nonneg = SYM[f][1] is not None and SYM[f][1] >= 0
        co = {b if a == f else a for a, b in monos.values() if f in (a, b)}     # cofactors

        def times(l):
            r = (0, ((f, l[0]),)) if l[0] else (0, ())
            for s, c in l[1]:
                r = add(r, (0, ((mono(s, f), c),)))
            return r
        # constraints that relate the cofactors, directly or through one more quantity
        want = set(co)
        if nonneg:
            for l in ineqs:
                if len(l[1]) == 2 and not all((s, f) in pairs or (f, s) in pairs for s, _ in l[1]):
                    t = {s for s, _ in l[1]}
                    if t & co and all(SYM[s][1] is not None and SYM[s][1] >= 0 for s in t) and \
                            not any(isinstance(SYM[s][0], tuple) and SYM[s][0][0] == 'mul' for s in t):
                        want |= t
        for l in ineqs:
            if nonneg and l[1] and all(s in want for s, _ in l[1]):
                oi.append(times(l))
        for l in eqs:
            if l[1] and all(s in want for s, _ in l[1]) and any(s in co for s, _ in l[1]):
                oe.append(times(l))
        # bounds of the cofactors
        for g in sorted(want):
            m = SYMIX[('mul',) + key(g, f)] if ('mul',) + key(g, f) in SYMIX else None
            if m is not None and nonneg:
                if SYM[g][1] is not None:
                    oi.append((0, ((m, 1), (f, -SYM[g][1])))) if SYM[g][1] else oi.append((0, ((m, 1),)))
                if SYM[g][2] is not None:
                    oi.append((0, ((m, -1), (f, SYM[g][2])))) if SYM[g][2] else oi.append((0, ((m, -1),)))
    # products of equal factors
    if len(monos) > 1:
        rep = {}
        def find(s):
            while s in rep:
                s = rep[s]
            return s
        for l in eqs:
            if not l[0] and len(l[1]) == 2 and l[1][0][1] == -l[1][1][1]:
                a, b = find(l[1][0][0]), find(l[1][1][0])
                if a != b:
                    rep[max(a, b)] = min(a, b)
        if rep:
            first = {}
            for m, (a, b) in sorted(monos.items()):
                a, b = find(a), find(b)
                k = (a, b) if a <= b else (b, a)
                if k in first:
                    oe.append((0, ((first[k], 1), (m, -1))))
                else:
                    first[k] = m
    fix = lambda l: (l[0], tuple(sorted(l[1])))
    return [fix(l) for l in oi], [fix(l) for l in oe]


def feasible(ineqs, eqs):
    """Is {l >= 0 for l in ineqs, l == 0 for l in eqs} satisfiable over Q (with type bounds)?"""
    key = (frozenset(ineqs), frozenset(eqs))
    r = _feas_cache.get(key)
    if r is not None:
        STATS["lp_hit"] += 1
        return r
    STATS["lp"] += 1
    r = _feasible(ineqs, eqs)
    _feas_cache[key] = r
    return r


def _feasible(ineqs, eqs):
    for l in ineqs:
        if not l[1] and l[0] < 0:
            return False
    for l in eqs:
        if not l[1] and l[0] != 0:
            return False
    pi, pe = _products(ineqs, eqs)
    need = {s for ls in (ineqs, eqs, pi, pe) for l in ls for s, _ in l[1]}
    for m in _models:
        if _holds(m, need, ineqs, pi, eqs, pe):
            STATS["model_hit"] += 1
            if m is not _models[0]:
                _models.remove(m)
                _models.insert(0, m)
            return True
    S = Simplex()
    n = 0
    syms = set()

    def row(l, eq):
        nonlocal n
        if not l[1]:
            return
        for s, _ in l[1]:
            syms.add(s)
        if len(l[1]) == 1:
            s, c = l[1][0]
            v = _div(-l[0], c)
            if eq:
                S.bound(s, v, v)
            elif c > 0:
                S.bound(s, v, None)
            else:
                S.bound(s, None, v)
            return
        b = (1 << 40) + n
        n += 1
        S.rows[b] = dict(l[1])
        S.bound(b, -l[0], -l[0] if eq else None)
    for l in list(ineqs) + pi:
        if not l[1] and l[0] < 0:
            return False
        row(l, False)
    for l in list(eqs) + pe:
        if not l[1] and l[0] != 0:
            return False
        row(l, True)
    for s in syms:
        S.bound(s, SYM[s][1], SYM[s][2])
    r = S.check()
    if r and S.solved:
        d = 1
        for s in syms:
            v = S.val.get(s)
            if v is not None and v.denominator != 1:
                d = d * v.denominator // math.gcd(d, v.denominator)
        m = {s: int(S.val.get(s, 0) * d) for s in syms}
        m[None] = d
        _models.insert(0, m)
        del _models[40:]
    return r


# recent solutions: most questions have an answer that has been seen before
_models = []


def _holds(m, need, ineqs, pi, eqs, pe):
    d = m[None]
    for s in need:
        v = m.get(s)
        if v is None:
            return False
        lo, hi = SYM[s][1], SYM[s][2]
        if lo is not None and v < lo * d or hi is not None and v > hi * d:
            return False
    for ls in (ineqs, pi):
        for c0, t in ls:
            v = c0 * d
            for s, c in t:
                v += c * m[s]
            if v < 0:
                return False
    for ls in (eqs, pe):
        for c0, t in ls:
            v = c0 * d
            for s, c in t:
                v += c * m[s]
            if v:
                return False
    return True


_slices = {}


def slice_for(syms, ineqs, eqs):
    """Constraints transitively sharing symbols with `syms` (a product shares its
    factors)."""
    key = (ineqs, eqs)
    c = _slices.get(key)
    if c is None:
        up = {}

        def find(s):
            r = s
            while up[r] != r:
                r = up[r]
            while up[s] != r:
                up[s], s = r, up[s]
            return r

        def have(s):
            if s not in up:
                up[s] = s
                t = SYM[s][0]
                if isinstance(t, tuple) and t[0] == "mul":
                    for f in t[1:]:
                        have(f)
                        a, b = find(s), find(f)
                        if a != b:
                            up[a] = b
        for l in ineqs:
            if l[1]:
                for s, _ in l[1]:
                    have(s)
                r = find(l[1][0][0])
                for s, _ in l[1][1:]:
                    q = find(s)
                    if q != r:
                        up[q] = r
        for l in eqs:
            if l[1]:
                for s, _ in l[1]:
                    have(s)
                r = find(l[1][0][0])
                for s, _ in l[1][1:]:
                    q = find(s)
                    if q != r:
                        up[q] = r
        parts = {}
        for k, ls in ((0, ineqs), (1, eqs)):
            for l in ls:
                if l[1]:
                    parts.setdefault(find(l[1][0][0]), ([], []))[k].append(l)
        c = ({s: find(s) for s in up}, parts)
        if len(_slices) > 64:
            _slices.clear()
        _slices[key] = c
    root, parts = c
    seen = []

    def visit(s):
        r = root.get(s)
        if r is not None:
            if r not in seen:
                seen.append(r)
            return
        t = SYM[s][0]
        if isinstance(t, tuple) and t[0] == "mul":
            visit(t[1])
            visit(t[2])
    for s in syms:
        visit(s)
        t = SYM[s][0]
        if isinstance(t, tuple) and t[0] == "mul":
            visit(t[1])
            visit(t[2])
    if len(seen) == 1:
        return parts.get(seen[0], ((), ()))
    oi, oe = [], []
    for r in seen:
        x = parts.get(r)
        if x:
            oi += x[0]
            oe += x[1]
    return oi, oe


def lo_of(l):
    v = l[0]
    for s, c in l[1]:
        b = SYM[s][1] if c > 0 else SYM[s][2]
        if b is None:
            return None
        v += c * b
    return v


def entails_ge(ineqs, eqs, l):
    """ineqs, eqs |= l >= 0 (over the integers: l <= -1 must be infeasible)."""
    if not l[1]:
        return l[0] >= 0
    b = lo_of(l)
    if b is not None and b >= 0:
        return True
    if l in ineqs:
        return True
    neg = (-l[0] - 1, tuple((s, -c) for s, c in l[1]))
    si, se = slice_for([s for s, _ in l[1]], ineqs, eqs)
    if not feasible(tuple(si) + (neg,), tuple(se)):
        return True
    return False


def entails_eq(ineqs, eqs, l):
    if not l[1]:
        return l[0] == 0
    if l in eqs or scale(l, -1) in eqs:
        return True
    return entails_ge(ineqs, eqs, l) and entails_ge(ineqs, eqs, scale(l, -1))
