"""Missing cells: which arrays a value is computed from, and whose masks it carries."""
from .common import *

MASKED = 'numpy.ma.MaskedArray'
SAME = {'numpy.ma.array', 'numpy.ma.masked_array', 'numpy.ma.asarray', 'numpy.ma.asanyarray', 'numpy.ma.copy', 'copy.copy', 'copy.deepcopy', 'numpy.ma.MaskedArray',
        'numpy.ma.core.MaskedArray', 'numpy.ma.masked_values', 'numpy.ma.masked_invalid', 'numpy.ma.masked_equal', 'numpy.ma.ravel', 'numpy.ma.reshape'}
BARE = {'numpy.array', 'numpy.asarray', 'numpy.ma.getdata', 'numpy.ascontiguousarray', 'numpy.nan_to_num', 'numpy.where', 'numpy.append', 'numpy.concatenate', 'numpy.einsum'}
FRESH = {'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.ma.zeros', 'numpy.arange'}
ARITH = {'numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide', 'numpy.true_divide', 'numpy.negative', 'numpy.abs', 'numpy.maximum', 'numpy.minimum',
         'numpy.ma.add', 'numpy.ma.subtract', 'numpy.ma.multiply', 'numpy.ma.divide', 'numpy.ma.maximum', 'numpy.ma.minimum'}
METHODS = {'copy', 'astype', 'reshape', 'ravel', 'flatten', 'squeeze', 'view'}


class Unknown(Exception):
    pass


def never(a):
    """the mask of a masked array is not None"""
    if a.op == 'isnone':
        x = a.args[0]
        while x.op == 'bin' and x.args[0] == '|':
            x = x.args[1]
        if x.op == 'attr' and x.args[1] == 'mask':
            return False
    return None


class Missing:
    """arr(n, g): [(condition, sources, uncovered)]: the arrays with masks a value is computed from, and those of them whose masks it lost.
    Sources are pairs (array node, condition inside its loop)."""

    def __init__(self, e, source, kinds=lambda n: None):
        self.e, self.source, self.kinds = e, source, kinds
        self.busy = {}
        self.memo = {}

    # ------------------------------------------------------------ helpers
    def product(self, parts):
        """[(c, (x1, x2...))] for lists of (c, x)"""
        out = [(1, ())]
        for p in parts:
            new = []
            for c, xs in out:
                for d, x in p:
                    k = B.AND(c, d)
                    if k:
                        new.append((k, xs + (x,)))
            out = new
            if len(out) > 400:
                raise Unknown('too many cases')
        return out

    def join(self, parts, lose=False):
        out = []
        for c, xs in self.product(parts):
            S = frozenset().union(*[x[0] for x in xs]) if xs else frozenset()
            U = frozenset().union(*[x[1] for x in xs]) if xs else frozenset()
            out.append((c, (S, S if lose else U)))
        return self.merge(out)

    def merge(self, xs):
        d = {}
        for c, x in xs:
            d[x] = B.OR(d.get(x, 0), B.restrict_map(c, never))
        return [(c, x) for x, c in d.items() if c]

    # ------------------------------------------------------------ arrays
    def arr(self, n, g=1):
        """[(c, (S, U))] with c under g"""
        if n.op == 'ite':
            out = []
            for c, l in leaves(n, g):
                for d, x in self.arr(l, c):
                    k = B.AND(c, d)
                    if k:
                        out.append((k, x))
            return self.vacuous(self.merge(out))
        key = (n, g if n.op in ('bin', 'call', 'ne', 'upd') else 1)
        if key in self.memo:
            return self.memo[key]
        r = self.vacuous(self.arr1(n, g))
        if not self.busy:
            self.memo[key] = r
        return r

    def vacuous(self, xs):
        """arrays known to have no mask need no cover"""
        out = []
        for c, (S, U) in xs:
            if U:
                drop = set()
                for i in B.support(c):
                    a = B.atoms[i] if isinstance(i, int) else i
                    if a.op == 'isinst' and MASKED in show(a.args[1], 3).replace('.core', '') and B.implies(c, B.NOT(atom(a))):
                        drop |= {s for s in U if s[0] is a.args[0]}
                        try:
                            for d, (S2, U2) in self.arr(a.args[0]):
                                if not U2:
                                    drop |= {s for s in U if any(s[0] is t[0] for t in S2)}
                        except (Unknown, RecursionError):
                            pass
                U = frozenset(U - drop)
            out.append((c, (S, U)))
        return self.merge(out)

    def arr1(self, n, g):
        s = self.source(n)
        if s is not None:
            return [(1, (frozenset([(s, 1)]), frozenset()))]
        if n.op in ('const', 'nan', 'param', 'cfg', 'lidx', 'empty', 'bool', 'keyof', 'isnone', 'lt', 'eq', 'ref', 'opt'):
            return [(1, (frozenset(), frozenset()))]
        if self.kinds(n) in ('key', 'keys'):
            return [(1, (frozenset(), frozenset()))]
        if n.op == 'bin':
            return self.join([self.arr(x, g) for x in n.args[1:] if isinstance(x, Node)])
        if n.op == 'aug':
            # in place: a plain array stays one
            out = []
            for k, (x, y) in self.product([self.arr(n.args[1], g), self.arr(n.args[2], g)]):
                out.append((k, (x[0] | y[0], x[1] | y[1] if x[0] - x[1] else x[1] | y[0])))
            return self.merge(out)
        if n.op == 'ne':
            return self.join([self.arr(x, g) for x in self.operands(n.args[0])], lose=True)
        if n.op == 'upd':
            # cells are replaced: masks stay
            return self.arr(n.args[0], g)
        if n.op == 'mu':
            return self.loop(n, g)
        if n.op == 'attr':
            if n.args[1] in ('data', 'base'):
                return self.lose(self.arr(n.args[0], g))
            if n.args[1] == 'T':
                return self.arr(n.args[0], g)
            if n.args[1] in ('shape', 'size', 'dtype', 'ndim', 'mask', 'fill_value', 'end_step', 'start_step', 'resolution', 'level'):
                return [(1, (frozenset(), frozenset()))]
        if n.op == 'sub':
            if self.container(n.args[0]):
                return self.elements(n.args[0], g)
            return self.arr(n.args[0], g)
        if n.op in ('elem', 'valof'):
            if all(l.op == 'call' and ext_of(l) in ('range', 'numpy.arange') for l in leafset(n.args[1])):
                return [(1, (frozenset(), frozenset()))]
            return self.elements(n.args[1], g)
        if n.op == 'call':
            f = ext_of(n)
            a = n.args[1]
            kw = dict(n.args[2]) if len(n.args) > 2 and isinstance(n.args[2], tuple) else {}
            if f in ('int', 'float', 'len', 'str', 'bool') or f.startswith('bisect.') or f == 'range':
                return [(1, (frozenset(), frozenset()))]
            if f in ('numpy.ma.masked_where',):
                c, x = (list(a) + [kw.get('condition'), kw.get('a')])[:2] if len(a) >= 2 else (kw.get('condition', a[0] if a else None), kw.get('a'))
                out = []
                for k, ((S, U), K) in self.product([self.arr(x, g), self.masks(c, g)]):
                    out.append((k, (S, self.uncovered(U, K))))
                return self.merge(out)
            if f in ('numpy.ma.array', 'numpy.ma.masked_array', 'numpy.ma.MaskedArray', 'numpy.ma.core.MaskedArray'):
                x = a[0] if a else kw.get('data')
                m = a[1] if len(a) > 1 and f != 'numpy.ma.array' else kw.get('mask')
                if m is not None:
                    return self.merge([(k, (S, self.uncovered(U, K))) for k, ((S, U), K) in self.product([self.arr(x, g), self.masks(m, g)])])
                return self.arr(x, g)
            if f in SAME and a:
                return self.arr(a[0], g)
            if f in ARITH:
                return self.join([self.arr(x, g) for x in a])
            if f in FRESH:
                return [(1, (frozenset(), frozenset()))]
            if f in BARE and a:
                return self.lose(self.join([self.arr(x, g) for x in a if isinstance(x, Node)]))
            if f == 'numpy.ma.where' and len(a) == 3:
                return self.join([self.arr(x, g) for x in a[1:]])
            if f == 'numpy.ma.append' and len(a) == 2:
                return self.join([self.arr(x, g) for x in a])
            if f in ('numpy.ma.filled',):
                return self.lose(self.arr(a[0], g))
            if n.args[0].op == 'attr':
                m = n.args[0].args[1]
                if m in METHODS:
                    return self.arr(n.args[0].args[0], g)
                if m == 'filled':
                    return self.lose(self.arr(n.args[0].args[0], g))
                if m in ('get', 'pop'):
                    return self.elements(n.args[0].args[0], g)
        if n.op in ('listv', 'tuple'):
            return self.join([self.arr(x, g) for x in n.args[0]])
        if n.op == 'comp':
            return self.arr(n.args[1], g)
        if n.op == 'append':
            return self.join([self.arr(x, g) for x in n.args[:2]])
        raise Unknown(f'array operation {show(n, 3)[:120]}')

    def lose(self, xs):
        return self.merge([(c, (S, S)) for c, (S, U) in xs])

    def uncovered(self, U, K):
        out = set()
        for s, g in U:
            h = B.OR(*[h for t, h in K if t is s])
            if not B.implies(g, h):
                out.add((s, g))
        return frozenset(out)

    def operands(self, n):
        """values a numexpr expression reads"""
        out, st = [], [n]
        while st:
            x = st.pop()
            if x.op == 'ne' or x.op == 'bin' or x.op in ('lt', 'eq', 'not', 'bool', 'ite', 'where', 'neg'):
                if x.op == 'ite' or x.op == 'bool':
                    out.append(x)
                    continue
                for y in x.args:
                    if isinstance(y, Node):
                        st.append(y)
                    elif isinstance(y, tuple):
                        st += [z for z in y if isinstance(z, Node)]
            elif x.op == 'call' and ext_of(x) not in ('int', 'float'):
                out.append(x)
            else:
                out.append(x)
        return out

    # ------------------------------------------------------------ loops and containers
    def loop(self, n, g):
        """value accumulated by a loop: all its iterations contribute"""
        if n in self.busy:
            return [(1, self.busy[n])]
        init, nxt = self.e.mus[n.args]
        cur = self.total(self.arr(init, 1))
        for _ in range(8):
            self.busy[n] = cur
            new = self.total_guarded(self.arr(nxt, 1))
            self.busy.pop(n)
            new = (cur[0] | new[0], cur[1] | new[1])
            if new == cur:
                break
            cur = new
        return [(1, cur)]

    def total(self, xs):
        return (frozenset().union(*[x[0] for c, x in xs]), frozenset().union(*[x[1] for c, x in xs])) if xs else (frozenset(), frozenset())

    def total_guarded(self, xs):
        """union over cases, each source under the condition of its case"""
        S, U = {}, {}
        for c, (s, u) in xs:
            for t, h in s:
                S[t] = B.OR(S.get(t, 0), B.AND(c, h) if (t, h) not in self.prior() else h)
            for t, h in u:
                U[t] = B.OR(U.get(t, 0), B.AND(c, h) if (t, h) not in self.prior() else h)
        return frozenset(S.items()), frozenset(U.items())

    def prior(self):
        out = set()
        for S, U in self.busy.values():
            out |= S
        return out

    def container(self, n):
        """value holds arrays, one per step"""
        for l in leafset(n):
            if l.op in ('dictv', 'listv', 'dcomp', 'upd', 'dupdate') or l.op == 'call' and ext_of(l) in ('collections.OrderedDict', 'dict', 'sorted', 'list'):
                if l.op == 'upd' and not self.container(l.args[0]):
                    continue
                return True
            if l.op == 'mu' and l not in self.cseen:
                self.cseen.add(l)
                try:
                    if self.container(self.e.mus[l.args][0]):
                        return True
                finally:
                    self.cseen.discard(l)
        return False
    cseen = set()

    def elements(self, n, g):
        """any of the arrays in a container"""
        out = []
        for c, l in leaves(n, g):
            if l.op in ('listv', 'tuple'):
                xs = self.join([self.arr(x, c) for x in l.args[0]])
            elif l.op == 'append':
                xs = self.join([self.elements(l.args[0], c), self.arr(l.args[1], c)])
            elif l.op == 'comp':
                xs = self.arr(l.args[1], c)
            elif l.op == 'mu':
                if l in self.busy:
                    xs = [(1, self.busy[l])]
                else:
                    init, nxt = self.e.mus[l.args]
                    cur = self.total(self.elements(init, 1))
                    for _ in range(6):
                        self.busy[l] = cur
                        new = self.total_guarded(self.elements(nxt, 1))
                        self.busy.pop(l)
                        new = (cur[0] | new[0], cur[1] | new[1])
                        if new == cur:
                            break
                        cur = new
                    xs = [(1, cur)]
            elif l.op == 'call' and ext_of(l) in ('list', 'tuple', 'reversed', 'iter', 'enumerate') and l.args[1]:
                xs = self.elements(l.args[1][0], c)
            elif l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] in ('values', 'items'):
                xs = self.elements(l.args[0].args[0], c)
            elif l.op in ('empty', 'dictv') and not l.args:
                xs = [(1, (frozenset(), frozenset()))]
            else:
                raise Unknown(f'container {show(l, 3)[:120]}')
            out += [(B.AND(c, d), x) for d, x in xs if B.AND(c, d)]
        return self.merge(out)

    # ------------------------------------------------------------ masks
    def masks(self, n, g):
        """[(c, covered sources)]: cells masked in any of these arrays satisfy the condition"""
        out = []
        for c, l in leaves(n, g):
            for d, K in self.masks1(l, c):
                k = B.AND(c, d)
                if k:
                    out.append((k, K))
        return self.merge(out)

    def masks1(self, n, g):
        if n.op == 'bin' and n.args[0] in ('|', 'or'):
            return self.merge([(c, a | b) for c, (a, b) in self.product([self.masks(n.args[1], g), self.masks(n.args[2], g)])])
        if n.op == 'bin' and n.args[0] == '+':
            return self.merge([(c, a | b) for c, (a, b) in self.product([self.masks(n.args[1], g), self.masks(n.args[2], g)])])
        if n.op == 'call':
            f, a = ext_of(n), n.args[1]
            if f in ('numpy.logical_or', 'numpy.ma.mask_or', 'numpy.bitwise_or') and len(a) >= 2:
                return self.merge([(c, x | y) for c, (x, y) in self.product([self.masks(a[0], g), self.masks(a[1], g)])])
            if f in ('numpy.ma.getmask', 'numpy.ma.getmaskarray'):
                return self.merge([(c, S - U) for c, (S, U) in self.arr(a[0], g)])
            if f in ('numpy.broadcast_to', 'numpy.array', 'numpy.asarray', 'bool', 'numpy.ma.make_mask'):
                return self.masks(a[0], g)
            if f in ('numpy.logical_or.reduce', 'numpy.any', 'numpy.bitwise_or.reduce') and a:
                # over a list of masks
                x = a[0]
                if x.op in ('listv', 'tuple'):
                    return self.merge([(c, frozenset().union(*ks)) for c, ks in self.product([self.masks(y, g) for y in x.args[0]])])
                if x.op == 'comp':
                    return self.masks(x.args[1], g)
        if n.op == 'attr' and n.args[1] == 'mask':
            return self.merge([(c, S - U) for c, (S, U) in self.arr(n.args[0], g)])
        if n.op == 'mu':
            it = self.e.loopinfo.get(n.args[0])
            return self.merge([(c, self.accumulated(n, c)) for c, l in (leaves(it['iter'], g) if it and isinstance(it.get('iter'), Node) else [(1, None)])])
        if n.op == 'bool':
            # a condition of cells
            return self.condition(n, g)
        return [(1, frozenset())]

    def condition(self, n, g):
        """a boolean of masks (x | y written as a condition)"""
        K = set()
        f = n.args[0]
        for i in B.support(f):
            a = B.atoms[i] if isinstance(i, int) else i
            if a.op == 'truth' and B.implies(atom(a), f):
                for c, k in self.masks(a.args[0], g):
                    if c == 1 or B.implies(g, c):
                        K |= k
        return [(1, frozenset(K))]

    def accumulated(self, n, g=1):
        """masks united over the elements of a container"""
        if n in self.busy:
            return frozenset()
        L = n.args[0]
        init, nxt = self.e.mus[n.args]
        own = None
        self.busy[n] = (frozenset(), frozenset())
        try:
            for c, l in leaves(nxt, g):
                if l is n:
                    # kept: only when the element has no mask
                    ok = False
                    for i in B.support(c):
                        a = B.atoms[i] if isinstance(i, int) else i
                        if a.op == 'isinst' and a.args[0].op in ('elem', 'valof') and a.args[0].args[0] == L and B.implies(c, B.NOT(atom(a))):
                            ok = True
                    if not ok:
                        return frozenset()
                    continue
                parts = self.union(l)
                has_prev = any(p is n for p in parts)
                first = any(a.op == 'isnone' and a.args[0] is n and B.implies(c, atom(a)) for a in [B.atoms[i] if isinstance(i, int) else i for i in B.support(c)])
                if not has_prev and not first:
                    return frozenset()
                K = frozenset()
                for p in parts:
                    if p is n:
                        continue
                    for d, k in self.masks(p, c):
                        K = K | k if K else k
                own = K if own is None else own & K
        finally:
            self.busy.pop(n, None)
        base = frozenset()
        for c, k in self.masks(init, 1):
            base = k
        return (own or frozenset()) | base

    def union(self, n):
        if n.op == 'bin' and n.args[0] == '|':
            return self.union(n.args[1]) + self.union(n.args[2])
        if n.op == 'call' and ext_of(n) in ('numpy.logical_or', 'numpy.ma.mask_or') and len(n.args[1]) >= 2:
            return self.union(n.args[1][0]) + self.union(n.args[1][1])
        return [n]
