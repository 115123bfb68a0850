"""Reduced ordered BDDs: the boolean part of the abstract state.

Nodes are small ints; 0 = False, 1 = True.  Variables are ints handed out by
`var(name)`; a name is any hashable term, so the same term always denotes the
same variable.
"""
import sys
sys.setrecursionlimit(20000)


class BDD:
    def __init__(self):
        self.names = []            # var index -> name
        self.index = {}            # name -> var index
        self.lev = []              # var index -> level (position in the order)
        self.order = []            # var indices by level (kept sorted)
        self.c_con = {}
        self.c_res = {}
        self.c_size = {}
        self.nodes = [None, None]  # (var, lo, hi)
        self.uniq = {}
        self.c_ite = {}
        self.c_sup = {}
        self.c_ex = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, name, after=None):
        """The variable `name`; a new one goes right below the variable `after`
        in the order (at the bottom when after is None)."""
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.index[name] = i
            if after is None:
                self.lev.append(self.lev[self.order[-1]] + 1024.0 if self.order else 0.0)
                self.order.append(i)
            else:
                from bisect import bisect_right
                p = bisect_right(self.order, self.lev[after], key=lambda v: self.lev[v])
                if p == len(self.order):
                    self.lev.append(self.lev[after] + 1024.0)
                else:
                    lo, hi = self.lev[after], self.lev[self.order[p]]
                    m = (lo + hi) / 2
                    if not lo < m < hi:
                        for n, v in enumerate(self.order):
                            self.lev[v] = n * 1024.0
                        m = (self.lev[after] + self.lev[self.order[p]]) / 2
                    self.lev.append(m)
                self.order.insert(p, i)
        return self.mk(i, 0, 1)

    def top(self, n):
        return self.lev[self.nodes[n][0]] if n > 1 else 1e300

    def lowest(self, vs):
        """The variable of vs lowest in the order."""
        return max(vs, key=lambda v: self.lev[v])

    def simplify(self, f, c):
        """f restricted to the care set c (Coudert-Madre): agrees with f on c."""
        if c <= 1 or f <= 1:
            return f
        k = (f, c)
        r = self.c_con.get(k)
        if r is None:
            vf, vc = self.nodes[f][0], self.nodes[c][0]
            if vf == vc:
                _, c0, c1 = self.nodes[c]
                _, f0, f1 = self.nodes[f]
                if c0 == 0:
                    r = self.simplify(f1, c1)
                elif c1 == 0:
                    r = self.simplify(f0, c0)
                else:
                    r = self.mk(vf, self.simplify(f0, c0), self.simplify(f1, c1))
            elif self.lev[vc] < self.lev[vf]:
                _, c0, c1 = self.nodes[c]
                r = self.simplify(f, self.lor(c0, c1))
            else:
                _, f0, f1 = self.nodes[f]
                r = self.mk(vf, self.simplify(f0, c), self.simplify(f1, c))
            self.c_con[k] = r
        return r

    def size(self, n):
        r = self.c_size.get(n)
        if r is None:
            seen = set()
            st = [n]
            while st:
                x = st.pop()
                if x > 1 and x not in seen:
                    seen.add(x)
                    st.append(self.nodes[x][1])
                    st.append(self.nodes[x][2])
            r = self.c_size[n] = len(seen)
        return r

    def cof(self, n, v):
        if n > 1 and self.nodes[n][0] == v:
            return self.nodes[n][1], self.nodes[n][2]
        return n, n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.c_ite.get(k)
        if r is not None:
            return r
        lev, nodes = self.lev, self.nodes
        v = nodes[f][0]
        if g > 1:
            w = nodes[g][0]
            if lev[w] < lev[v]:
                v = w
        if h > 1:
            w = nodes[h][0]
            if lev[w] < lev[v]:
                v = w
        f0, f1 = self.cof(f, v)
        g0, g1 = self.cof(g, v)
        h0, h1 = self.cof(h, v)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.c_ite[k] = r
        return r

    def land(self, a, b):
        return self.ite(a, b, 0)

    def lor(self, a, b):
        return self.ite(a, 1, b)

    def lnot(self, a):
        return self.ite(a, 0, 1)

    def xor(self, a, b):
        return self.ite(a, self.lnot(b), b)

    def iff(self, a, b):
        return self.ite(a, b, self.lnot(b))

    def imp(self, a, b):
        return self.ite(a, b, 1)

    def implies(self, a, b):
        return self.ite(a, b, 1) == 1

    def support(self, n):
        if n <= 1:
            return frozenset()
        r = self.c_sup.get(n)
        if r is None:
            v, lo, hi = self.nodes[n]
            r = frozenset((v,)) | self.support(lo) | self.support(hi)
            self.c_sup[n] = r
        return r

    def exists(self, n, vs):
        """Existential quantification over the set of variable indices vs."""
        vs = frozenset(vs) & self.support(n)
        if not vs:
            return n
        k = (n, vs)
        r = self.c_ex.get(k)
        if r is None:
            v, lo, hi = self.nodes[n]
            lo2, hi2 = self.exists(lo, vs), self.exists(hi, vs)
            r = self.lor(lo2, hi2) if v in vs else self.ite(self.mk(v, 0, 1), hi2, lo2)
            self.c_ex[k] = r
        return r

    def restrict(self, n, v, val):
        if n <= 1:
            return n
        w, lo, hi = self.nodes[n]
        if w == v:
            return hi if val else lo
        if self.lev[w] > self.lev[v] or v not in self.support(n):
            return n
        k = (n, v, val)
        r = self.c_res.get(k)
        if r is None:
            r = self.c_res[k] = self.mk(w, self.restrict(lo, v, val), self.restrict(hi, v, val))
        return r

    def compose(self, n, m):
        """Simultaneous substitution: m maps var index -> node."""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            r = memo.get(x)
            if r is None:
                v, lo, hi = self.nodes[x]
                r = self.ite(m.get(v, self.mk(v, 0, 1)), go(hi), go(lo))
                memo[x] = r
            return r
        return go(n)

    def sat_one(self, n):
        """One satisfying partial assignment {name: bool}, or None."""
        if n == 0:
            return None
        out = {}
        while n > 1:
            v, lo, hi = self.nodes[n]
            if lo != 0:
                out[self.names[v]] = False
                n = lo
            else:
                out[self.names[v]] = True
                n = hi
        return out

    def forced(self, n):
        """Literals implied by n, as {var index: bool}."""
        out = {}
        for v in self.support(n):
            if self.restrict(n, v, False) == 0:
                out[v] = True
            elif self.restrict(n, v, True) == 0:
                out[v] = False
        return out


B = BDD()
