"""Value graph: hash-consed nodes, Boolean guards (BDD) and gated values.

Every expression of the analysed program is abstracted to a Node.  Branch
conditions become atoms of a reduced ordered BDD; a value that depends on which
branch was taken is an `ite` decision diagram over the same atoms.  Structural
identity of nodes is therefore value equality modulo naming, statement order and
the way helpers are cut - which is what the rules compare.
"""
import sys
sys.setrecursionlimit(60000)

_table = {}
_names = []


class Node:
    __slots__ = ('op', 'args', 'id')

    def __init__(self, op, args, id_):
        self.op = op
        self.args = args
        self.id = id_

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def N(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, Node) else
                        (type(a).__name__, a) if not isinstance(a, tuple) else _tkey(a) for a in args)
    n = _table.get(key)
    if n is None:
        n = Node(op, args, len(_table) + 1)
        _table[key] = n
    return n


def _tkey(t):
    return tuple(a.id if isinstance(a, Node) else _tkey(a) if isinstance(a, tuple)
                 else (type(a).__name__, a) for a in t)


def const(v):
    if isinstance(v, float) and v != v:
        return N('const', 'nan!')if False else N('nan')
    return N('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ABSENT = N('absent')


def is_const(n, *vals):
    if not isinstance(n, Node) or n.op != 'const':
        return False
    return not vals or any(n.args[0] == v and type(n.args[0]) is type(v) for v in vals)


def cval(n):
    return n.args[0]


# ----------------------------------------------------------------- BDD
class BDD:
    def __init__(self):
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.uniq = {}
        self.memo = {}
        self.atoms = []          # index -> Node
        self.atom_ix = {}        # Node -> index

    def var(self, atom):
        i = self.atom_ix.get(atom)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(atom)
            self.atom_ix[atom] = i
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def top(self, f):
        return self.nodes[f][0]

    def cof(self, f, v):
        t, lo, hi = self.nodes[f]
        return (lo, hi) if t == v else (f, f)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is None:
            v = min(self.top(f), self.top(g), self.top(h))
            f0, f1 = self.cof(f, v)
            g0, g1 = self.cof(g, v)
            h0, h1 = self.cof(h, v)
            r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
            self.memo[k] = r
        return r

    def AND(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
        return r

    def OR(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def implies(self, f, g):
        return self.AND(f, self.NOT(g)) == 0

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return [self.atoms[i] for i in sorted(out)]

    def exists(self, f, pred):
        """existentially quantify the atoms satisfying pred"""
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            a, b = go(lo), go(hi)
            r = self.OR(a, b) if pred(self.atoms[v]) else self.ite(self.mk(v, 0, 1), b, a)
            memo[x] = r
            return r
        return go(f)

    def forall(self, f, pred):
        return self.NOT(self.exists(self.NOT(f), pred))

    def restrict_map(self, f, val):
        """val: callable(atom)-> True/False/None"""
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            t = val(self.atoms[v])
            r = go(hi) if t is True else go(lo) if t is False else self.ite(self.mk(v, 0, 1), go(hi), go(lo))
            memo[x] = r
            return r
        return go(f)


B = BDD()


def reset_bdd():
    pass


def atom(n):
    return B.var(n)


def mkbool(b):
    if b == 1:
        return TRUE
    if b == 0:
        return FALSE
    return N('bool', b)


def boolish(n):
    return n.op == 'bool' or (n.op == 'const' and (n.args[0] is True or n.args[0] is False))


def tobdd(n):
    if n.op == 'bool':
        return n.args[0]
    return 1 if n.args[0] is True else 0


_mtmemo = {}


def _top(n):
    return n.args[0] if n.op == 'ite' else (1 << 60)


def _cofn(n, v):
    if n.op == 'ite' and n.args[0] == v:
        return n.args[2], n.args[1]
    return n, n


def ite(c, a, b):
    """gated value: a where guard c holds, else b (canonical decision diagram)"""
    if c == 1:
        return a
    if c == 0 or a is b:
        return b
    if boolish(a) and boolish(b):
        return mkbool(B.ite(c, tobdd(a), tobdd(b)))
    k = (c, a.id, b.id)
    r = _mtmemo.get(k)
    if r is None:
        v = min(B.top(c), _top(a), _top(b))
        c0, c1 = B.cof(c, v)
        a0, a1 = _cofn(a, v)
        b0, b1 = _cofn(b, v)
        hi = ite(c1, a1, b1)
        lo = ite(c0, a0, b0)
        r = hi if hi is lo else N('ite', v, hi, lo)
        _mtmemo[k] = r
    return r


_csmemo = {}


def constrain(a, g):
    """simplify gated value a knowing guard g holds"""
    if g in (0, 1):
        return a
    if a.op == 'bool':
        return mkbool(bconstrain(a.args[0], g))
    if a.op != 'ite':
        return a
    k = (a.id, g)
    r = _csmemo.get(k)
    if r is None:
        tv, tg = _top(a), B.top(g)
        if tg < tv:
            _, lo, hi = B.nodes[g]
            r = constrain(a, B.OR(lo, hi))
        else:
            g0, g1 = B.cof(g, tv)
            if g1 == 0:
                r = constrain(a.args[2], g0)
            elif g0 == 0:
                r = constrain(a.args[1], g1)
            else:
                hi, lo = constrain(a.args[1], g1), constrain(a.args[2], g0)
                r = hi if hi is lo else N('ite', tv, hi, lo)
        _csmemo[k] = r
    return r


def bconstrain(f, g):
    if f < 2 or g in (0, 1):
        return f
    if B.implies(g, f):
        return 1
    if B.AND(g, f) == 0:
        return 0
    k = ('b', f, g)
    r = _csmemo.get(k)
    if r is None:
        tf, tg = B.top(f), B.top(g)
        if tg < tf:
            _, lo, hi = B.nodes[g]
            r = bconstrain(f, B.OR(lo, hi))
        else:
            g0, g1 = B.cof(g, tf)
            _, f0, f1 = B.nodes[f]
            if g1 == 0:
                r = bconstrain(f0, g0)
            elif g0 == 0:
                r = bconstrain(f1, g1)
            else:
                r = B.mk(tf, bconstrain(f0, g0), bconstrain(f1, g1)) \
                    if True else f
        _csmemo[k] = r
    return r


def leaves(n, g=1):
    """[(guard, leaf)] of a gated value"""
    out = {}

    def go(x, c):
        if c == 0:
            return
        if x.op == 'ite':
            v = B.mk(x.args[0], 0, 1)
            go(x.args[1], B.AND(c, v))
            go(x.args[2], B.AND(c, B.NOT(v)))
        else:
            out[x] = B.OR(out.get(x, 0), c)
    go(n, g)
    return [(c, x) for x, c in out.items()]


def leafset(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def mtmap(n, f):
    """apply f to each leaf, rebuild the gated value"""
    if n.op != 'ite':
        return f(n)
    memo = {}

    def go(x):
        if x.op != 'ite':
            return f(x)
        if x.id in memo:
            return memo[x.id]
        r = ite(B.mk(x.args[0], 0, 1), go(x.args[1]), go(x.args[2]))
        memo[x.id] = r
        return r
    return go(n)


def bmap(n, f):
    """map leaves to BDDs"""
    if n.op != 'ite':
        return f(n)
    memo = {}

    def go(x):
        if x.op != 'ite':
            return f(x)
        if x.id in memo:
            return memo[x.id]
        r = B.ite(B.mk(x.args[0], 0, 1), go(x.args[1]), go(x.args[2]))
        memo[x.id] = r
        return r
    return go(n)


# ------------------------------------------------------------ utilities
def subnodes(a):
    for x in a:
        if isinstance(x, Node):
            yield x
        elif isinstance(x, tuple):
            yield from subnodes(x)


def children(n):
    """operand nodes, looking through guards of booleans"""
    if n.op == 'bool':
        return B.support(n.args[0])
    if n.op == 'ite':
        return [B.atoms[n.args[0]], n.args[1], n.args[2]]
    return list(subnodes(n.args))


def walk(n, stop=None, guards=True):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if stop and stop(x):
            continue
        if x.op == 'ite' and not guards:
            st += [x.args[1], x.args[2]]
        elif x.op == 'bool' and not guards:
            continue
        else:
            st += children(x)


def rewrite(n, f, memo=None):
    """bottom-up rewriting: f(node_with_new_children) -> node"""
    memo = {} if memo is None else memo

    def arg(a):
        if isinstance(a, Node):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a

    def gob(b):
        k = ('B', b)
        if k in memo:
            return memo[k]
        if b < 2:
            r = b
        else:
            v, lo, hi = B.nodes[b]
            a = go(B.atoms[v])
            r = B.ite(tob(a), gob(hi), gob(lo))
        memo[k] = r
        return r

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == 'bool':
            r = mkbool(gob(x.args[0]))
        elif x.op == 'ite':
            a = go(B.atoms[x.args[0]])
            r = ite(tob(a), go(x.args[1]), go(x.args[2]))
        else:
            na = tuple(arg(a) for a in x.args)
            r = N(x.op, *na) if na != x.args else x
        r = f(r)
        memo[x.id] = r
        return r
    go.bdd = gob
    return go(n)


def tob(a):
    """node used as an atom -> bdd"""
    if boolish(a):
        return tobdd(a)
    return atom(a)


def canon(n, memo={}):
    """strip allocation identities (call uids, loop ids keep first-occurrence order)"""
    def f(x):
        if x.op == 'call' and x.args[3] != 0:
            return N('call', x.args[0], x.args[1], x.args[2], 0)
        return x
    return rewrite(n, f, memo)


def show(n, depth=6, seen=None, budget=None):
    """readable rendering; a shared sub-expression is written once, then as #id"""
    top = seen is None
    seen = set() if top else seen
    budget = [400] if budget is None else budget
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ', '.join(show(x, depth, seen, budget) for x in n) + ')'
        return repr(n)
    if n.op == 'const':
        return repr(n.args[0])
    a = n.args
    if n.op == 'ext':
        return a[0]
    if n.op in ('param', 'opt'):
        return f'<{n.op}:{a[0]}>'
    if n.op == 'cfg':
        return f'ctx[{show(a[1], 2)}]'
    if n.op in ('ref', 'iter', 'total'):
        return n.op + str(a[0])
    if depth <= 0 or budget[0] <= 0:
        return '…'
    budget[0] -= 1
    d = depth - 1
    S = lambda x: show(x, d, seen, budget)
    if n.op in ('ite', 'call', 'fmt', 'bin', 'op', 'bool'):
        if n.id in seen:
            return f'#{n.id}'
        seen.add(n.id)
        tag = f'#{n.id}=' if n.op == 'ite' else ''
    if n.op == 'attr':
        return f'{S(a[0])}.{a[1]}'
    if n.op == 'sub':
        return f'{S(a[0])}[{S(a[1])}]'
    if n.op == 'bin':
        return f'({S(a[1])} {a[0]} {S(a[2])})'
    if n.op == 'call':
        kw = ', '.join(f'{k}={S(v)}' for k, v in a[2])
        ar = ', '.join(S(x) for x in a[1])
        return f'{S(a[0])}({ar}{", " if ar and kw else ""}{kw})'
    if n.op == 'bool':
        return f'?{showb(a[0], d, seen, budget)}'
    if n.op == 'ite':
        return f'{tag}[{S(B.atoms[a[0]])} ? {S(a[1])} : {S(a[2])}]'
    if n.op == 'fmt':
        return 'f"' + ''.join(x.args[0] if is_const(x) and isinstance(x.args[0], str) else '{' + S(x) + '}' for x in a[0]) + '"'
    return f'{n.op}<' + ', '.join(S(x) for x in a) + '>'


def showb(b, depth=4, seen=None, budget=None):
    if b == 1:
        return 'True'
    if b == 0:
        return 'False'
    seen = set() if seen is None else seen
    budget = [200] if budget is None else budget
    out = []

    def go(x, acc):
        if len(out) >= 3 or budget[0] <= 0:
            return
        budget[0] -= 1
        if x == 1:
            out.append(' & '.join(acc) or 'True')
            return
        if x == 0:
            return
        v, lo, hi = B.nodes[x]
        s = show(B.atoms[v], depth, seen, budget)
        go(hi, acc + [s])
        go(lo, acc + ['!' + s])
    go(b, [])
    return ' | '.join(out)
