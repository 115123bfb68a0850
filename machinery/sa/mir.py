"""Loading of the MIR dump: bodies, types, control-flow structure, liveness."""
import json
import re


def norm(p):
    p = re.sub(r'[A-Za-z_]+::__private::core::', 'std::', p)
    return p


class Body:
    def __init__(self, P, j):
        self.P = P
        self.id = j['id']
        self.path = norm(j['path'])
        self.krate = j['krate']
        self.local = j['local']
        self.kind = j['kind']
        self.argc = j['argc']
        self.loc = j['loc']
        self.spread = j.get('spread')
        self.vis = j.get('vis')
        self.unsafe = j.get('unsafe')
        self.generic = j.get('generic')
        self.abi = j.get('abi')
        self.impl_self = j.get('impl_self')
        self.impl_trait = j.get('impl_trait')
        self.reachable = j.get('reachable')
        self.locals = j['locals']
        self.blocks = j['blocks']
        self._cfg = None

    @property
    def name(self):
        return self.path

    def short(self):
        return self.path.split('::')[-1]

    # ---- control flow (normal edges only: unwinding is not followed)
    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            out = []
            for _, x in t[2]:
                if x not in out:
                    out.append(x)
            if t[3] not in out:
                out.append(t[3])
            return out
        if k == 'drop':
            return [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []

    def cfg(self):
        if self._cfg:
            return self._cfg
        succ = {}
        order = []
        seen = set()
        # iterative DFS postorder
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        succ[0] = self.succs(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    succ[s] = self.succs(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        ix = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while ix[x] > ix[y]:
                                    x = idom[x]
                                while ix[y] > ix[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
                elif ix[s] <= ix[b]:
                    raise Exception('irreducible control flow in ' + self.id)
        self._cfg = dict(rpo=rpo, ix=ix, succ=succ, pred=pred, loops=loops, dom=dom, idom=idom)
        return self._cfg

    # ---- liveness of locals
    def liveness(self):
        if hasattr(self, '_live'):
            return self._live
        c = self.cfg()
        borrowed = set()

        def places(x, acc):
            # acc(local, kind)
            pass
        gen, kill = {}, {}

        def use_place(p, u):
            u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i':
                    u.add(e[1])

        def use_op(o, u):
            if o[0] in ('copy', 'move'):
                use_place(o[1], u)

        def use_rv(r, u):
            k = r[0]
            if k in ('use', 'repeat'):
                use_op(r[1], u)
            elif k == 'ref' or k == 'rawptr':
                p = r[2]
                use_place(p, u)
                if '*' not in p[1]:
                    borrowed.add(p[0])
            elif k == 'cast':
                use_op(r[2], u)
            elif k == 'bin':
                use_op(r[2], u)
                use_op(r[3], u)
            elif k == 'un':
                use_op(r[2], u)
            elif k == 'discr':
                use_place(r[1], u)
            elif k == 'agg':
                for o in r[3]:
                    use_op(o, u)

        infos = {}
        for b in c['rpo']:
            bl = self.blocks[b]
            steps = []
            for s in bl['s']:
                u, d = set(), set()
                if s[0] == '=':
                    use_rv(s[2], u)
                    if s[1][1]:
                        use_place(s[1], u)
                    else:
                        d.add(s[1][0])
                elif s[0] == 'setdiscr':
                    use_place(s[1], u)
                elif s[0] == 'dead':
                    d.add(s[1])
                elif s[0] == 'assume':
                    use_op(s[1], u)
                elif s[0] == 'copynonoverlap':
                    for o in s[1:4]:
                        use_op(o, u)
                steps.append((u, d))
            t = bl['t']
            u, d = set(), set()
            if t[0] == 'switch':
                use_op(t[1], u)
            elif t[0] == 'drop':
                use_place(t[1], u)
            elif t[0] == 'call':
                use_op(t[1], u)
                for o in t[2]:
                    use_op(o, u)
                if t[3][1]:
                    use_place(t[3], u)
                else:
                    d.add(t[3][0])
            elif t[0] == 'assert':
                use_op(t[1], u)
                ex = t[4]
                if t[3] == 'bounds':
                    for o in ex:
                        use_op(o, u)
                elif t[3] == 'overflow' and ex:
                    use_op(ex[1], u)
                    use_op(ex[2], u)
            elif t[0] == 'return':
                u.add(0)
            steps.append((u, d))
            infos[b] = steps
        live = {b: set() for b in c['rpo']}
        ch = True
        while ch:
            ch = False
            for b in reversed(c['rpo']):
                l = set()
                for s in c['succ'][b]:
                    l |= live[s]
                for u, d in reversed(infos[b]):
                    l -= d
                    l |= u
                if l != live[b]:
                    live[b] = l
                    ch = True
        # borrowed locals: live wherever reachable until StorageDead (approximate: always)
        self._live = {b: frozenset(l | borrowed) for b, l in live.items()}
        return self._live


class Program:
    def __init__(self, fn):
        d = json.load(open(fn))
        self.T = d['types']
        for t in self.T:
            if 'path' in t:
                t['path'] = norm(t['path'])
        self.bodies = {}
        for j in d['bodies']:
            b = Body(self, j)
            self.bodies[b.id] = b
        self.by_path = {}
        for b in self.bodies.values():
            self.by_path.setdefault(b.path, []).append(b)
        self.statics = d['statics']
        self.impls = d['impls']
        self._norm_callees()
        self.ty_by_name = {}
        for i, t in enumerate(self.T):
            self.ty_by_name.setdefault(t['s'], i)

    def _norm_callees(self):
        seen = set()

        def fix(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            for k in ('path', 'rpath', 'trait', 'full', 'rfull', 'impl_self', 'ctor'):
                if k in c:
                    c[k] = norm(c[k])

        def walk(x):
            if isinstance(x, dict):
                if 'path' in x and 'krate' in x and 'full' in x:
                    fix(x)
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for b in self.bodies.values():
            walk(b.blocks)
        for t in self.T:
            if 'f' in t:
                fix(t['f'])

    def fn(self, path):
        """The unique non-closure body with this path."""
        l = [b for b in self.by_path.get(path, []) if b.local]
        return l[0] if len(l) >= 1 else None

    def callee_of(self, body, op):
        """Resolved callee dict of a call operand, or None."""
        if op[0] == 'const':
            c = op[1]
            if c[0] == 'named':
                c = c[2]
            if c[0] == 'fn':
                return c[1]
            return None
        t = self.T[op[1][2]]
        if t['k'] == 'fndef':
            return t['f']
        return None
