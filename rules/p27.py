"""The interpolated field from the source field and the table."""
from .p14 import *
from .ratio import ratio, equal, plus, times, over, num, of

EXPLAIN = ('The field of one interpolation is evaluated abstractly for every mode and then for one target cell in every state of its entry in the table: no entry, entry with weights, entry without, '
           'every source point of the entry valid, masked or missing, fields with and without mask.')
RULE = 'the cell is the sum of weight times value over the points of its entry; it is missing when a point of its entry is missing, when the entry has no weights or points and when there is no entry'
ASSUME = ['parts of the table are aligned (P19 for the tables of the GRIB library)', 'indexes of a scipy table are those of points, or the number of points for none; weights are numbers, or NaN for none']
NNEAR = {'nearest': 1, 'invdist': 4, 'adw': 11, 'cdd': 11, 'bilinear': 4, 'triangulation': 3, 'bilinear_delaunay': 4}
NOT, MISSING = N('nan'), N('missing value')
BEYOND = 'beyond'


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


class Cell:
    """one value of an array: masked or not, the data, and whether the array is a masked one"""

    def __init__(self, masked, data, ma):
        self.masked, self.data, self.ma = bool(masked) and ma, data, ma

    def __eq__(self, o):
        return isinstance(o, Cell) and (self.masked, self.ma) == (o.masked, o.ma) and self.data is o.data


class Vec:
    """the values along the neighbours of one cell"""

    def __init__(self, xs):
        self.xs = list(xs)


class Idx:
    def __init__(self, j):
        self.j = j


class Src:
    """the source field; appended: with one value more"""

    def __init__(self, extra=None, data=False):
        self.extra, self.data = extra, data


class SrcMask:
    def __init__(self, src):
        self.src = src


class Shape:
    pass


class Where:
    """places of cells: kept when"""

    def __init__(self, keep):
        self.keep = keep


def check(rep, overlay=None):
    rep.each([(m, s) for m in MODES for s in ((False, True) if m in GRIB else (False,))], lambda r, it: one(r, overlay, *it))


class World:
    """one target cell: entry in the table, source points"""

    def __init__(self, ma, full, points, entry=True, weights=True, beyond=False):
        self.ma, self.full, self.points, self.entry, self.weights, self.beyond = ma, full, points, entry, weights, beyond

    def __str__(self):
        w = 'no entry' if not self.entry else 'entry without weights' if not self.weights else 'entry without points' if self.beyond else 'entry'
        bad = [f'{j + 1}' for j, p in enumerate(self.points) if p != 'valid']
        return f'{w}, {"masked array" if self.ma else "array"}{" without mask" if self.ma and not self.full else ""}{", points " + ",".join(bad) + " masked" if bad else ""}'


def value(j):
    return N('value', j)


def weight(j):
    return N('weight', j)


class Ev:
    def __init__(self, k, place, w, mode):
        self.k, self.place, self.w, self.mode = k, place, w, mode
        self.memo = {}

    # ---------------------------------------------------------------- conditions
    def decide(self, a):
        d = self.place(a)
        if d is not None:
            return d
        if a.op == 'isinst':
            v = self.ev(a.args[0])
            t = show(a.args[1], 3)
            if isinstance(v, SrcMask):
                return self.w.full and 'ndarray' in t
            if isinstance(v, bool):
                return 'bool' in t
            if isinstance(v, (Src, Cell, Vec)):
                ma = self.w.ma if isinstance(v, Src) else v.ma if isinstance(v, Cell) else any(getattr(x, 'ma', False) for x in v.xs)
                return ma if 'Masked' in t else True if 'ndarray' in t else None
        if a.op == 'isnone':
            if a.args[0] in (LATS, LONS):
                return False
            if a.args[0].op == 'mu':
                return self.ev(a.args[0]) is None
            try:
                return self.ev(a.args[0]) is None
            except Unknown:
                return None
        if a.op in ('eq', 'lt'):
            try:
                x, y = self.ev(a.args[0]), self.ev(a.args[1])
            except Unknown:
                return None
            if isinstance(x, SrcMask) or isinstance(y, SrcMask):
                return False if a.op == 'eq' and (x is False or y is False or x is None or y is None) else None
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return x == y if a.op == 'eq' else x < y
        return None

    # ---------------------------------------------------------------- values
    def ev(self, n, env=()):
        if not isinstance(n, Node):
            return n
        key = (n, env)
        if key not in self.memo:
            self.memo[key] = self.ev1(n, env)
        return self.memo[key]

    def ev1(self, n, env):
        o = n.op
        e = dict(env)
        if n in e:
            return e[n]
        if n is V:
            return Src()
        if o == 'const':
            return n.args[0]
        if o == 'nan' or ext_name(n) in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
            return Cell(False, NOT, False)
        if o == 'ite':
            a = B.atoms[n.args[0]]
            d = self.decide(a) if not env else self.decide_in(a, env)
            if d is None:
                x, y = self.ev(n.args[1], env), self.ev(n.args[2], env)
                if same(x, y):
                    return x
                raise Unknown(f'condition {show(a, 3)[:100]}')
            return self.ev(n.args[1 if d else 2], env)
        if o in ('param', 'cfg'):
            return Cell(False, n, False)
        if is_mv(n):
            return Cell(False, MISSING, False)
        if o == 'bool':
            return self.truthf(n.args[0], env)
        if o == 'mu':
            return self.loop(n, env)
        if o == 'op' and n.args[0] == 'computed':
            return self.part(n.args[1])
        if o == 'upd':
            return self.update(n, env)
        if o == 'attr':
            return self.attr(n, env)
        if o == 'sub':
            return self.sub(n, env)
        if o == 'bin':
            x, y = self.ev(n.args[1], env), self.ev(n.args[2], env)
            return self.arith(n.args[0], x, y)
        if o == 'un':
            x = self.ev(n.args[1], env)
            if n.args[0] in ('~', 'not'):
                return each(x, lambda b: not b)
            raise Unknown(show(n, 3)[:120])
        if o in ('tuple', 'listv'):
            return tuple(self.ev(x, env) for x in n.args[0])
        if o == 'acmp':
            return self.compare(n.args[0], self.ev(n.args[1], env), self.ev(n.args[2], env))
        if o == 'arr':
            return self.ev(n.args[0], env)
        if o in ('eq', 'lt'):
            return self.compare('==' if o == 'eq' else '<', self.ev(n.args[0], env), self.ev(n.args[1], env))
        if o == 'slice':
            return slice(None)
        if o == 'call':
            return self.call(n, env)
        raise Unknown(show(n, 3)[:120])

    def decide_in(self, a, env):
        d = self.place(a)
        if d is not None:
            return d
        if a.op == 'isnone':
            return self.ev(a.args[0], env) is None
        return self.decide(a)

    def truthf(self, f, env):
        if f in (0, 1):
            return bool(f)
        v = B.top(f)
        lo, hi = B.cof(f, v)
        a = B.atoms[v]
        if a.op == 'iter':
            return self.truthf(hi, env)
        d = self.place(a)
        if d is None:
            d = self.ev(a, env) if a.op in ('eq', 'lt', 'acmp') else self.decide_in(a, env)
        if d is None:
            raise Unknown(f'condition {show(a, 3)[:100]}')
        if isinstance(d, Vec):
            x, y = self.truthf(hi, env), self.truthf(lo, env)
            pick = lambda b, i: b.xs[i] if isinstance(b, Vec) else b
            return Vec([pick(x if d.xs[i] else y, i) for i in range(len(d.xs))])
        return self.truthf(hi if d else lo, env)

    # ---------------------------------------------------------------- the table
    def part(self, name):
        """parts of a table of the GRIB library at the entry of the cell"""
        name = str(name.args[0]) if isinstance(name, Node) else name
        if name in ('xs', 'ys'):
            return ('place', name)
        j = int(name[-1]) - 1 if name[-1].isdigit() else 0
        return Idx(j) if name.startswith('idx') else Cell(False, weight(j), False)

    def scipy(self, i):
        n = NNEAR[self.mode]
        if i == 0:
            raise Wrong('the field is the one computed with the table, which is another one when the table is read again')
        if i == 1:
            if not self.w.weights:
                return Vec([Cell(False, NOT, False)] * n) if n > 1 else Cell(False, NOT, False)
            return Vec([Cell(False, weight(j), False) for j in range(n)]) if n > 1 else Cell(False, weight(0), False)
        js = [BEYOND] * n if self.w.beyond else list(range(n))
        return Vec([Idx(j) for j in js]) if n > 1 else Idx(js[0])

    # ---------------------------------------------------------------- steps
    def attr(self, n, env):
        if n.args[1] == 'T':
            return ('T', self.ev(n.args[0], env))
        if n.args[1] == 'shape':
            v = self.ev(n.args[0], env) if self.scipyish(n.args[0]) else None
            return ('shape', len(v.xs)) if isinstance(v, Vec) else Shape()
        if n.args[1] == 'size':
            v = self.ev(n.args[0], env)
            if isinstance(v, Src):
                return ('size', v.extra is not None)
            raise Unknown(show(n, 3)[:120])
        v = self.ev(n.args[0], env)
        if n.args[1] in ('flat',):
            return v
        if n.args[1] == 'mask':
            if isinstance(v, Src):
                return SrcMask(v) if self.w.full else False
            return each(v, lambda c: c.masked)
        if n.args[1] == 'data':
            if isinstance(v, Src):
                return Src(v.extra, True)
            return each(v, lambda c: Cell(False, c.data, False))
        raise Unknown(show(n, 3)[:120])

    def scipyish(self, n):
        return mentions(n, lambda x: x.op == 'op' and x.args[0] == 'scipy')

    def source(self, s, i):
        if i.j == BEYOND:
            if s.extra is None:
                raise Wrong('a value beyond the end of the source field is taken')
            return Cell(False, s.extra.data if isinstance(s.extra, Cell) else s.extra, self.w.ma and not s.data)
        bad = self.w.points[i.j] == 'masked'
        return Cell(bad, N('under mask', i.j) if bad else value(i.j), self.w.ma and not s.data)

    def sub(self, n, env):
        b, k = n.args
        if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] == 'interpolate' and b.args[0].args[0].op == 'op' and b.args[0].args[0].args[0] == 'scipy' and is_const(k):
            return self.scipy(k.args[0] % 3)
        x = self.ev(b, env)
        if isinstance(x, tuple) and x and x[0] == 'shape':
            if is_const(k):
                return x[1] if k.args[0] in (1, -1) else ('cells',)
        if isinstance(x, tuple) and x and x[0] == 'T':
            i = self.ev(k, env)
            if isinstance(i, int) and isinstance(x[1], Vec):
                return x[1].xs[i]
            raise Unknown(show(n, 3)[:120])
        i = self.ev(k, env)
        if isinstance(x, Src) and (is_const(k) or k.op == 'un') and not isinstance(i, Idx):
            # the same point for every cell
            return Cell(False, N('param', 'value of a fixed point'), self.w.ma and not x.data)
        if isinstance(x, Src):
            return each(i, lambda q: self.source(x, q) if isinstance(q, Idx) else self.no(n))
        if isinstance(x, SrcMask):
            return each(i, lambda q: self.source(x.src, q).masked if isinstance(q, Idx) else self.no(n))
        if isinstance(x, bool):
            raise Wrong('a mask that is not an array is used as one')
        if isinstance(x, Vec):
            if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and isinstance(i[1], int):
                return x.xs[i[1]]
        if isinstance(x, tuple) and isinstance(i, int):
            return x[i]
        raise Unknown(show(n, 3)[:120])

    def no(self, n):
        raise Unknown(show(n, 3)[:120])

    def update(self, n, env):
        base, key, val = n.args
        if key.op == 'slice' or is_const(key, ...):
            return self.plain(self.ev(val, env))
        k = self.ev(key, env)
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, tuple) and x[0] == 'place' for x in k):
            if [x[1] for x in k] != ['xs', 'ys']:
                raise Wrong('values are stored at columns and rows of another cell')
            if self.w.entry:
                v = self.ev(val, env)
                return self.plain(v)
            return self.ev(base, env)
        if isinstance(k, bool):
            return self.assign(self.ev(base, env), self.ev(val, env)) if k else self.ev(base, env)
        raise Unknown(show(n, 3)[:120])

    def assign(self, b, v):
        """into an array of the kind of b"""
        if isinstance(b, Cell) and isinstance(v, Cell):
            return Cell(v.masked, v.data, b.ma)
        return v

    def plain(self, v):
        """stored into an array without mask: data under the mask is what is stored"""
        return Cell(False, v.data, False) if isinstance(v, Cell) else v

    def arith(self, o, x, y):
        if isinstance(x, Vec) or isinstance(y, Vec):
            n = len(x.xs if isinstance(x, Vec) else y.xs)
            g = lambda q, i: q.xs[i] if isinstance(q, Vec) else q
            return Vec([self.arith(o, g(x, i), g(y, i)) for i in range(n)])
        if isinstance(x, bool) and isinstance(y, bool) and o in ('|', '&', '+', '*'):
            return (x or y) if o in '|+' else (x and y)
        if o == '|' and (x is None or y is None):
            raise Wrong('a mask is combined with nothing')
        cells = [q for q in (x, y) if isinstance(q, Cell)]
        if not cells:
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return {'+': x + y, '-': x - y, '*': x * y}.get(o)
            if o == '*' and isinstance(x, tuple) or isinstance(y, tuple):
                raise Unknown('lists')
            raise Unknown(f'operation {o}')
        p, q = [a if isinstance(a, Cell) else Cell(False, const(a), False) for a in (x, y)]
        ma = p.ma or q.ma
        data = NOT if NOT in (p.data, q.data) else N('bin', o, p.data, q.data)
        return Cell(p.masked or q.masked, data, ma)

    def compare(self, o, x, y):
        if isinstance(x, Vec) or isinstance(y, Vec):
            n = len(x.xs if isinstance(x, Vec) else y.xs)
            g = lambda q, i: q.xs[i] if isinstance(q, Vec) else q
            return Vec([self.compare(o, g(x, i), g(y, i)) for i in range(n)])
        if isinstance(y, Idx):
            x, y, o = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
        if isinstance(x, Idx):
            if y in (('size', False), ('len', False)):
                at = x.j == BEYOND
                return {'==': at, '!=': not at, '>=': at, '<': not at, '>': False, '<=': True}[o]
        if isinstance(x, Cell) and isinstance(y, Cell) and o in ('==', '!='):
            if MISSING in (x.data, y.data) and (x.data.op in ('value', 'missing value') and y.data.op in ('value', 'missing value')):
                return (x.data is y.data) == (o == '==')
            if NOT in (x.data, y.data):
                return o == '!='
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o]
        raise Unknown(f'comparison {o}')

    def total(self, v, ma=None):
        """sum over the neighbours"""
        if not isinstance(v, Vec) or not all(isinstance(c, (Cell, bool)) for c in v.xs):
            raise Unknown('sum')
        if any(c.ma for c in v.xs):
            good = [c for c in v.xs if not c.masked]
            t = good[0].data if good else NOT
            for c in good[1:]:
                t = NOT if NOT in (t, c.data) else N('bin', '+', t, c.data)
            return Cell(not good, t, True)
        t = v.xs[0].data
        for c in v.xs[1:]:
            t = NOT if NOT in (t, c.data) else N('bin', '+', t, c.data)
        return Cell(False, t, False)

    def call(self, n, env):
        fn, f, a, kw = ext_of(n), n.args[0], n.args[1], dict(n.args[2] or ())
        arg = lambda i, name=None: self.ev(a[i], env) if len(a) > i else self.ev(kw[name], env) if name in kw else None
        if f.op == 'attr':
            m = f.args[1]
            if m in ('reshape', 'ravel', 'flatten', 'copy', 'astype', 'squeeze', 'view', 'item', 'get', 'compressed'):
                if m == 'compressed':
                    raise Unknown(m)
                return self.ev(f.args[0], env)
            if m == 'filled':
                return each(self.ev(f.args[0], env), lambda c: self.filled(c, arg(0, 'fill_value')))
            if m in ('any', 'all'):
                return self.reduce(m, self.ev(f.args[0], env))
            if m == 'sum' and self.axis(a, kw, 0):
                return self.total(self.ev(f.args[0], env))
            if m in ('append',):
                raise Unknown(m)
            if m == 'get_fill_value' or m == 'interpolate':
                raise Unknown(m)
        if fn in ('numpy.append', 'numpy.ma.append', 'numpy.concatenate', 'numpy.ma.concatenate', 'numpy.hstack', 'numpy.r_'):
            xs = [arg(0), arg(1)] if 'append' in fn else list(arg(0))
            xs = [x[0] if isinstance(x, tuple) and len(x) == 1 else x for x in xs]
            if len(xs) == 2 and isinstance(xs[0], Src) and isinstance(xs[1], (Cell, int, float)):
                x = xs[1] if isinstance(xs[1], Cell) else Cell(False, const(xs[1]), False)
                # the functions of numpy drop the mask
                return Src(x, 'numpy.ma' not in fn or xs[0].data)
            raise Unknown(show(n, 3)[:120])
        if fn in ('numpy.einsum', 'numpy.vdot', 'numpy.inner'):
            if fn == 'numpy.einsum' and is_const(a[0]) and str(a[0].args[0]).replace(' ', '') == 'ij,ij->i':
                x, y = self.ev(a[1], env), self.ev(a[2], env)
                if isinstance(x, Vec) and isinstance(y, Vec):
                    return self.total(Vec([self.plain(c) for c in self.arith('*', each(x, self.plain), each(y, self.plain)).xs]))
            raise Unknown(show(n, 3)[:120])
        if fn in ('numpy.sum', 'numpy.ma.sum', 'numpy.nansum') and self.axis(a, kw, 1):
            if fn == 'numpy.nansum':
                raise Wrong('missing values are left out of the sum')
            return self.total(arg(0))
        if fn == 'sum' and len(a) == 1:
            xs = arg(0)
            if isinstance(xs, tuple) and xs and all(isinstance(x, Cell) for x in xs):
                t = xs[0]
                for x in xs[1:]:
                    t = self.arith('+', t, x)
                return t
        if fn in ('numpy.any', 'numpy.all', 'numpy.logical_or.reduce'):
            return self.reduce('all' if fn.endswith('all') else 'any', arg(0))
        if fn in ('numpy.isnan',):
            return each(arg(0), lambda c: c.data is NOT if isinstance(c, Cell) else False)
        if fn in ('numpy.isfinite',):
            return each(arg(0), lambda c: c.data is not NOT if isinstance(c, Cell) else True)
        if fn in ('numpy.logical_not',):
            return each(arg(0), lambda b: not b)
        if fn in ('numpy.logical_or', 'numpy.logical_and', 'numpy.bitwise_or'):
            return self.arith('&' if fn.endswith('and') else '|', arg(0), arg(1))
        if fn in ('numpy.ma.getmaskarray',):
            v = arg(0)
            return SrcMask(v) if isinstance(v, Src) else each(v, lambda c: c.masked)
        if fn in ('numpy.ma.getdata',):
            v = arg(0)
            return Src(v.extra, True) if isinstance(v, Src) else each(v, self.plain)
        if fn in ('numpy.ma.masked_where',):
            m, v = arg(0), arg(1)
            return Cell(bool(m) or v.masked, v.data, True)
        if fn in ('numpy.ma.masked_values', 'numpy.ma.masked_equal'):
            v, q = arg(0), arg(1)
            return Cell(v.masked or v.data is q.data, v.data, True)
        if fn in ('numpy.ma.masked_invalid',):
            v = arg(0)
            return Cell(v.masked or v.data is NOT, v.data, True)
        if fn in ('numpy.ma.masked_array', 'numpy.ma.array', 'numpy.ma.MaskedArray', 'numpy.ma.core.MaskedArray'):
            v, m = arg(0, 'data'), arg(9, 'mask')
            return Cell((v.masked or bool(m)), v.data, True)
        if fn in ('numpy.ma.filled',):
            return each(arg(0), lambda c: self.filled(c, arg(1, 'fill_value')))
        if fn in ('numpy.where', 'numpy.ma.where') and len(a) == 3:
            c = arg(0)
            if not isinstance(c, bool):
                raise Unknown(show(n, 3)[:120])
            v = arg(1) if c else arg(2)
            return self.plain(v) if fn == 'numpy.where' else Cell(v.masked, v.data, True)
        if fn == 'numpy.nan_to_num':
            v, r = arg(0), arg(9, 'nan')
            return each(v, lambda c: Cell(c.masked, (r.data if isinstance(r, Cell) else const(r or 0)) if c.data is NOT else c.data, c.ma))
        if fn in ('numpy.full', 'numpy.full_like'):
            return arg(1, 'fill_value')
        if fn in ('numpy.empty', 'numpy.empty_like'):
            return Cell(False, N('garbage'), False)
        if fn in ('numpy.zeros', 'numpy.zeros_like', 'numpy.ones'):
            return Cell(False, const(0 if 'zeros' in fn else 1), False)
        if fn in ('numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.array', 'numpy.ma.ravel', 'numpy.asanyarray', 'numpy.take', 'numpy.ma.asarray', 'numpy.atleast_1d'):
            v = arg(0)
            if fn == 'numpy.take':
                raise Unknown(fn)
            return each(v, self.plain) if fn in ('numpy.asarray', 'numpy.array') and isinstance(v, (Cell, Vec)) else v
        if fn == 'len':
            v = arg(0)
            if isinstance(v, Src):
                return ('len', v.extra is not None)
        if fn in ('range', 'int', 'float'):
            if fn == 'range':
                xs = [self.ev(x, env) for x in a]
                if all(isinstance(x, int) for x in xs):
                    return range(*xs)
            else:
                return arg(0)
        raise Unknown(show(n, 3)[:120])

    def axis(self, a, kw, i):
        return is_const(kw.get('axis', a[i] if len(a) > i else const(None)), 1, -1)

    def reduce(self, m, v):
        if isinstance(v, Vec):
            return any(v.xs) if m == 'any' else all(v.xs)
        if isinstance(v, bool):
            raise Unknown('any of all cells')
        raise Unknown('any')

    def filled(self, c, f):
        d = f.data if isinstance(f, Cell) else N('default fill value') if f is None else const(f)
        return Cell(False, d if c.masked else c.data, False)

    def loop(self, n, env):
        init, nxt = self.k.e.mus[n.args]
        L = n.args[0]
        it = self.k.e.loopinfo[L]['iter']
        if it is None:
            raise Unknown('loop on a condition')
        xs = self.ev(it, env)
        if isinstance(xs, tuple) and len(xs) == 2 and xs[0] == 'T' and isinstance(xs[1], Vec):
            xs = xs[1].xs
        if not isinstance(xs, (range, tuple, list)):
            raise Unknown(f'loop over {show(it, 3)[:100]}')
        mus = [N('mu', *m) for m in self.k.e.mus if m[0] == L]
        cur = {m: self.ev(self.k.e.mus[m.args][0], env) if self.used(n, m) else None for m in mus}
        inner = [x for x in walk(nxt) if x.op in ('elem', 'lidx') and x.args[0] == L]
        for m in mus:
            inner += [x for x in walk(self.k.e.mus[m.args][1]) if x.op in ('elem', 'lidx') and x.args[0] == L]
        for i, x in enumerate(xs):
            at = {**dict(env), **cur}
            for y in inner:
                at[y] = x if y.op == 'elem' else i
            at = Env(at)
            cur = {m: self.ev1(constrain(self.k.e.mus[m.args][1], atom(N('iter', L))), at) if self.used(n, m) else None for m in mus}
        return cur[n]

    def used(self, n, m):
        return m is n or mentions(self.k.e.mus[n.args][1], lambda x: x is m)


class Env(dict):
    """bindings of loop variables"""

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, Vec):
        return len(x.xs) == len(y.xs) and all(same(a, b) for a, b in zip(x.xs, y.xs))
    if isinstance(x, Idx):
        return x.j == y.j
    if isinstance(x, (Shape, slice)):
        return True
    if isinstance(x, Src):
        return x.data == y.data and (x.extra is y.extra or same(x.extra, y.extra))
    return x == y


def each(v, f):
    if isinstance(v, Vec):
        return Vec([each(x, f) for x in v.xs])
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'T':
        return ('T', each(v[1], f))
    return f(v)


def is_mv(n):
    """the missing value of the target"""
    if n.op == 'attr' and n.args[1] == 'mv' and n.args[0].op == 'op' and n.args[0].args[0] == 'map':
        return cfg_key(n.args[0].args[1]) in ('interpolation.latMap', 'interpolation.lonMap')
    return n.op == 'sub' and n.args[0].op == 'ext' and 'default_fillvals' in str(n.args[0].args[0])


def worlds(mode):
    out = []
    g = mode in GRIB
    n = (4 if 'inv' in mode else 1) if g else NNEAR[mode]
    for ma, full in ((False, False), (True, False), (True, True)):
        states = [['valid'] * n]
        if full:
            for j in range(n):
                s = ['valid'] * n
                s[j] = 'masked'
                states.append(s)
            if n > 1:
                states.append(['masked'] * n)
        for s in states:
            out.append(World(ma, full, s))
            if not g and n > 1:
                out.append(World(ma, full, s, weights=False))
        if g:
            out.append(World(ma, full, ['valid'] * n, entry=False))
        else:
            out.append(World(ma, full, ['valid'] * n, beyond=True, weights=n == 1))
    return out


def one(rep, overlay, mode, second):
    g = mode in GRIB
    k = interpolate(overlay, mode, gid=N('param', 'gid') if g else -1, second=second)
    rep.scenario(k.e, f'{mode}{", second resolution" if second else ""}')
    v, live = k.vals[0]
    tag = f'{mode}{":second" if second else ""}'
    place = Place(**{**OPEN, **W, 'registered': False, 'there': (), 'new_exists': False, 'cached': False}).on(k)
    n = (4 if 'inv' in mode else 1) if g else NNEAR[mode]
    for w in worlds(mode):
        ev = Ev(k, place, w, mode)
        fn = 'Interpolator.interpolate'
        try:
            got = ev.ev(v)
        except Wrong as x:
            rep.ob(f'{tag}:[{w}]', False, fn, f'{mode}, {w}: {x}')
            continue
        except Unknown as x:
            rep.need(False, f'{mode}: the field cannot be followed: {x}')
        if isinstance(got, (int, float)):
            got = Cell(False, const(got), False)
        rep.need(isinstance(got, Cell), f'{mode}: the result is not a field')
        bad = not w.entry or not w.weights or w.beyond or 'masked' in w.points
        if bad:
            # not a number counts as missing for writers and API
            good = got.masked or got.data is MISSING or got.data is NOT
            text = 'the cell is not missing'
        else:
            want = of(weight(0)) if n > 1 else None
            want = num(0), num(1)
            for j in range(n):
                want = plus(want, times(of(weight(j)), of(value(j))) if n > 1 else of(value(j)))
            good = not got.masked and got.data is not NOT and equal(ratio(got.data), want)
            text = f'the cell is not the {"weighted sum of the values" if n > 1 else "value"} of its point{"s" if n > 1 else ""}'
        rep.ob(f'{tag}:[{w}]', good, fn, f'{mode}, {w}: {text}: {"masked" if got.masked else show(got.data, 6)[:120]}')
