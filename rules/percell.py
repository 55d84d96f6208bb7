"""Arrays over the target cells as terms about one generic cell."""
from .common import *
from .ratio import ratio, equal, plus, num

LAT, LON, X, Y = (N('cell', x) for x in ('lat', 'lon', 'row', 'column'))
FAIL = N('search_fails')
NANV = N('nan')


class Misaligned(Exception):
    pass


class Unknown(Exception):
    pass


def near(gid, lat, lon, kw):
    return N('near', gid, lat, lon, kw)


def lift(f, *vs):
    """f over the alternatives of the values"""
    if not vs:
        return f()
    return mtmap(vs[0], lambda a: lift(lambda *r: f(a, *r), *vs[1:])) if len(vs) > 1 else mtmap(vs[0], f)


def blift(f, *vs):
    if len(vs) == 1:
        return bmap(vs[0], f)
    return bmap(vs[0], lambda a: blift(lambda *r: f(a, *r), *vs[1:]))


class PerCell:
    """source: which cell value parameters of the evaluated function have"""

    def __init__(self, e, source, run=None):
        self.e, self.source, self.run = e, dict(source), run
        self.memo = {}
        self.stack = []
        self.filters = []

    # ------------------------------------------------ values
    def cell(self, n):
        if not isinstance(n, Node):
            return n
        r = self.memo.get(n)
        if r is None:
            r = self.cell1(n)
            self.memo[n] = r
        return r

    def cell1(self, n):
        if n in self.source:
            return self.source[n]
        o = n.op
        if o in ('const', 'func', 'ext', 'cls', 'cell', 'param', 'near'):
            return n
        if o == 'nan':
            return NANV
        if o == 'ite':
            return ite(self.cond(atom(B.atoms[n.args[0]])), self.cell(n.args[1]), self.cell(n.args[2]))
        if o == 'bool':
            return mkbool(self.cond(n.args[0]))
        if o == 'mu':
            return self.loop(n)
        if o == 'elem':
            if n.args[1].op != 'param' and ext_of(n.args[1]) not in ('zip', 'enumerate', 'range'):
                v = self.cell(n.args[1])
                # one of the chunks
                return N('chunked', v.args[0]) if v.op == 'chunk' else v
            return self.cell(n.args[1])
        if o == 'upd':
            if n.args[1].op == 'slice' and all(is_const(x, None) for x in n.args[1].args) or is_const(n.args[1], ...):
                return self.cell(n.args[2])
            if n.args[1].op == 'bool' or mentions(n.args[1], lambda x: x.op == 'bool'):
                c = self.cond(tobdd(self.cell(n.args[1]))) if n.args[1].op != 'bool' else self.cond(n.args[1].args[0])
                return ite(c, self.cell(n.args[2]), self.cell(n.args[0]))
            raise Misaligned('a value is stored at a place that is not the one of the cell')
        if o == 'ne':
            return self.cell(n.args[0])
        if o == 'bin' and n.args[0] == '+' and n.args[1].op == 'const' and is_const(n.args[1], 0):
            return self.cell(n.args[2])
        if o == 'bin':
            return lift(lambda a, b: arith(n.args[0], a, b), self.whole(n.args[1]), self.whole(n.args[2]))
        if o == 'un':
            if n.args[0] == '~':
                return mkbool(B.NOT(self.truth(n.args[1])))
            return lift(lambda a: N('un', n.args[0], a), self.cell(n.args[1]))
        if o == 'attr':
            if n.args[1] in ('flat', 'T', 'values', 'data'):
                return self.cell(n.args[0])
            return N('attr', self.cell(n.args[0]), n.args[1])
        if o == 'sub':
            return self.sub(n)
        if o == 'tuple' or o == 'listv':
            return N(o, tuple(self.cell(x) for x in n.args[0]))
        if o == 'call':
            return self.call(n)
        raise Unknown(show(n, 3)[:120])

    def whole(self, n):
        """arithmetic between filtered arrays is between the same cells"""
        return self.cell(n)

    def sub(self, n):
        b, k = n.args
        if b.op == 'call' and ext_of(b) == 'numpy.indices' and is_const(k, 0, 1):
            return (X, Y)[k.args[0]]
        if ext_of(k) in ('numpy.flatnonzero', 'numpy.nonzero', 'numpy.where') or k.op == 'sub' and ext_of(k.args[0]) in ('numpy.nonzero', 'numpy.where') and is_const(k.args[1], 0):
            c = k.args[0] if k.op == 'sub' else k
            if len(c.args[1]) == 1:
                return ite(self.truth(c.args[1][0]), self.cell(b), DROPPED)
        if k.op == 'bool' or k.op == 'un' or mentions(k, lambda x: x.op in ('bool',) or ext_of(x) == 'numpy.isnan'):
            keep = self.truth(k)
            v = self.cell(b)
            self.filters.append((n, keep))
            return ite(keep, v, DROPPED)
        if k.op == 'elem' and self.numbers(k.args[1]):
            return self.cell(b)
        v = self.cell(b)
        if v.op == 'chunk':
            it = k.args[1] if k.op == 'elem' else None
            if k.op == 'elem' and ext_of(it) == 'range' and len(it.args[1]) > 1 and is_const(it.args[1][0]) and not is_const(it.args[1][0], 0) or is_const(k):
                raise Misaligned('not all chunks of cells are put together')
            if it is None or ext_of(it) != 'range' or not (len(it.args[1]) == 1 or is_const(it.args[1][0], 0)):
                raise Unknown(show(k, 3)[:120])
            if it.args[1][-1 if len(it.args[1]) < 3 else 1] is not self.nchunks:
                raise Misaligned('not all chunks of cells are put together')
            return N('chunked', v.args[0])
        if v.op == 'chunked':
            v = v.args[0]
        return lift(lambda a, i: a.args[0][i.args[0]] if a.op in ('tuple', 'listv') and is_const(i) and isinstance(i.args[0], int) else a if a is DROPPED else N('sub', a, i), v, self.cell(k))

    def call(self, n):
        fn, f, a, kw = ext_of(n), n.args[0], n.args[1], dict(n.args[2] or ())
        if fn.endswith('codes_grib_find_nearest'):
            return lift(lambda *v: near(v[0], v[1], v[2], tuple(sorted((k, self.cell(x)) for k, x in kw.items()))), *[self.cell(x) for x in a[:3]])
        if f.op == 'attr' and f.args[1] in ('ravel', 'flatten', 'item', 'copy', 'astype', 'reshape', 'tolist', 'squeeze', 'filled'):
            return self.cell(f.args[0])
        if f.op == 'attr' and f.args[1] == 'compute':
            return self.parallel(f.args[0])
        if fn in ('numpy.zeros', 'numpy.zeros_like'):
            return const(0)
        if fn in ('numpy.ones', 'numpy.ones_like'):
            return const(1)
        if fn == 'numpy.full_like':
            return self.cell(a[1])
        if fn in ('numpy.sum', 'sum') and a and a[0].op in ('listv', 'tuple') and is_const(kw.get('axis', const(0) if fn == 'sum' else None), 0):
            r = const(0)
            for x in a[0].args[0]:
                r = N('bin', '+', r, x)
            return self.cell(r)
        if fn in ('numpy.where',) and len(a) == 3:
            return ite(self.truth(a[0]), self.cell(a[1]), self.cell(a[2]))
        if fn in ('numpy.ravel', 'numpy.asarray', 'numpy.array', 'int', 'float', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.float64', 'numpy.int64'):
            return self.cell(a[0])
        if fn == 'numpy.full':
            return self.cell(a[1])
        if fn == 'numpy.isnan':
            return mkbool(blift(lambda x: 1 if x is NANV else 0 if x is not DROPPED else 0, self.cell(a[0])))
        if fn in ('numpy.logical_and', 'numpy.logical_or'):
            return mkbool((B.AND if fn.endswith('and') else B.OR)(self.truth(a[0]), self.truth(a[1])))
        if fn == 'numpy.logical_not':
            return mkbool(B.NOT(self.truth(a[0])))
        if fn in ('numpy.concatenate', 'numpy.hstack'):
            return self.concat(a[0])
        OPS = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/'}
        if fn in OPS:
            return lift(lambda x, y: arith(OPS[fn], x, y), self.cell(a[0]), self.cell(a[1]))
        if fn == 'numpy.sum' or f.op == 'attr' and f.args[1] == 'sum':
            raise Unknown(show(n, 3)[:120])
        raise Unknown(show(n, 3)[:120])

    # ------------------------------------------------ loops over the cells
    def loop(self, n):
        if n in self.stack:
            return N('before')
        if n.args not in self.e.mus:
            raise Unknown(show(n, 3))
        L = n.args[0]
        init, nxt = self.e.mus[n.args]
        info = self.e.loopinfo[L]
        it = info['iter']
        if it is None or not self.overcells(it):
            raise Unknown(f'loop over {show(it, 3)[:80] if it else "a condition"}')
        before = self.cell(init)

        def stored(v):
            if v is n:
                return before
            if v.op == 'upd':
                if not self.position(v.args[1], L):
                    raise Misaligned(f'line {info["line"]}: a value is not stored at the place of its cell')
                return self.cell(v.args[2])
            raise Unknown(show(v, 3)[:120])
        self.stack.append(n)
        # in the round of the cell
        out = self.walkite(constrain(nxt, atom(N('iter', L))), stored)
        self.stack.pop()
        return out

    def walkite(self, v, f):
        if v.op == 'ite':
            return ite(self.cond(atom(B.atoms[v.args[0]])), self.walkite(v.args[1], f), self.walkite(v.args[2], f))
        return f(v)

    def overcells(self, it):
        """the loop runs over all target cells in order"""
        if it.op == 'zip' or it.op == 'call' and ext_of(it) in ('zip', 'enumerate'):
            xs = it.args[1] if it.op == 'call' else it.args[0]
            return all(self.overcells(x) for x in xs)
        if self.numbers(it):
            return True
        try:
            return self.cell(it) in (LAT, LON, X, Y)
        except Unknown:
            return False

    def numbers(self, it):
        """range(number of cells)"""
        if ext_of(it) != 'range' or not (len(it.args[1]) == 1 or len(it.args[1]) == 2 and is_const(it.args[1][0], 0)):
            return False
        n = it.args[1][-1]
        if n.op == 'attr' and n.args[1] == 'size':
            n = n.args[0]
        elif ext_of(n) in ('len', 'numpy.size') and len(n.args[1]) == 1 and (ext_of(n) == 'numpy.size' or n.args[1][0].op == 'call'):
            n = n.args[1][0]
        else:
            return False
        try:
            return self.cell(n) in (LAT, LON, X, Y)
        except Unknown:
            return False

    def position(self, k, L):
        """k is the number of the round of loop L"""
        if k.op == 'elem' and k.args[0] == L and self.numbers(k.args[1]):
            return True
        if k.op == 'lidx' and k.args[0] == L:
            return is_const(k.args[1], 0) if isinstance(k.args[1], Node) else k.args[1] == 0
        if k.op == 'mu' and k.args[0] == L and k.args in self.e.mus:
            init, nxt = self.e.mus[k.args]
            return is_const(init, 0) and all(l.op in ('bin', 'aug') and '+' in str(l.args[0]) and k in l.args and any(is_const(x, 1) for x in l.args if isinstance(x, Node)) for l in leafset(constrain(nxt, atom(N('iter', L)))))
        return False

    # ------------------------------------------------ conditions
    def truth(self, n):
        v = self.cell(n)
        if not boolish(v) and v.op != 'ite':
            raise Unknown(show(n, 3)[:120])
        return blift(lambda x: tobdd(x) if boolish(x) else self.fail(x), v)

    def fail(self, x):
        raise Unknown(show(x, 3)[:120])

    def cond(self, f):
        if f in (0, 1):
            return f
        v = B.top(f)
        lo, hi = B.cof(f, v)
        return B.ite(self.atom(B.atoms[v]), self.cond(hi), self.cond(lo))

    def atom(self, a):
        if a.op == 'iter':
            return 1
        if a.op == 'exc_in':
            return atom(FAIL)
        if a.op in ('eq', 'lt'):
            return blift(lambda x, y: compare(a.op, x, y), self.cell(a.args[0]), self.cell(a.args[1]))
        if a.op in ('truth', 'isnone'):
            return blift(lambda x: 1 if (a.op == 'truth') == truthy(x) else 0, self.cell(a.args[0]))
        raise Unknown(show(a, 3)[:120])

    # ------------------------------------------------ parallel computation
    def concat(self, n):
        """the parts of the cells of all chunks, in order"""
        if n.op != 'comp' or len(n.args[2]) != 1:
            raise Unknown(show(n, 3)[:120])
        return self.cell(n.args[1])

    def parallel(self, n):
        m = n
        while m.op == 'call' and m.args[0].op == 'attr' and m.args[0].args[1] != 'map':
            m = m.args[0].args[0]
        if m.op != 'call' or m.args[0].op != 'attr' or m.args[0].args[1] != 'map':
            raise Unknown(show(n, 3)[:120])
        seq, fn = m.args[0].args[0], m.args[1][0]
        while seq.op == 'call' and seq.args[0].op == 'attr' and not seq.args[1]:
            seq = seq.args[0].args[0]
        if not ext_of(seq).endswith('bag.from_sequence'):
            raise Unknown(show(seq, 3)[:120])
        chunks = seq.args[1][0]
        if ext_of(chunks) != 'numpy.array_split':
            raise Unknown(show(chunks, 3)[:120])
        kw = dict(chunks.args[2] or ())
        axis = kw.get('axis', chunks.args[1][2] if len(chunks.args[1]) > 2 else const(0))
        stack = chunks.args[1][0]
        if is_const(axis, 0):
            raise Misaligned('coordinates, rows and columns are cut into chunks instead of the cells')
        if ext_of(stack) not in ('numpy.stack', 'numpy.vstack', 'numpy.array', 'numpy.asarray') or not is_const(axis, 1):
            raise Unknown(show(chunks, 3)[:120])
        self.nchunks = chunks.args[1][1]
        column = N('tuple', tuple(self.cell(x) for x in stack.args[1][0].args[0]))
        args, kw = [N('param', 'chunk')], dict(m.args[2] or ())
        v, e, st = self.run(fn, args, kw)
        if ext_of(v) == 'numpy.apply_along_axis' and is_const(v.args[1][1], 1):
            raise Misaligned('the step is applied to rows of a chunk instead of its cells')
        if ext_of(v) != 'numpy.apply_along_axis' or not is_const(v.args[1][1], 0) or v.args[1][2] is not args[0]:
            raise Unknown(show(v, 3)[:120])
        g = N('param', 'column')
        w, e, st = self.run(v.args[1][0], [g] + list(v.args[1][3:]), dict(v.args[2] or ()))
        inner = PerCell(self.e, {**self.source, g: column}, self.run)
        return N('chunk', inner.cell(w))


DROPPED = N('dropped')


def truthy(x):
    return bool(x.args[0]) if is_const(x) else x.op != 'nan'


def arith(op, a, b):
    if a is DROPPED or b is DROPPED:
        return DROPPED if a is b else N('misaligned')
    if a is NANV or b is NANV:
        return NANV
    if op == '+' and is_const(a, 0):
        return b
    return N('bin', op, a, b)


def compare(op, a, b):
    """eq / lt of two cell values"""
    if a is DROPPED or b is DROPPED:
        return 0
    if a is NANV or b is NANV:
        return 0
    if is_const(a) and is_const(b):
        try:
            return 1 if (a.args[0] == b.args[0] if op == 'eq' else a.args[0] < b.args[0]) else 0
        except TypeError:
            return 0
    if op == 'eq':
        if a is b:
            return 1
        for x, y in ((a, b), (b, a)):
            # rows, columns and indexes of points are not negative
            if is_const(x) and isinstance(x.args[0], (int, float)) and x.args[0] < 0 and (y in (X, Y) or y.op == 'sub' and is_const(y.args[1], 'index', 'distance')):
                return 0
        a, b = sorted((a, b), key=lambda n: n.id)
    else:
        for x, y, r in ((a, b, 1), (b, a, 0)):
            if is_const(x) and isinstance(x.args[0], (int, float)) and x.args[0] < 0 and (y in (X, Y) or y.op == 'sub' and is_const(y.args[1], 'index', 'distance')):
                return r
    return atom(N(op, a, b))
