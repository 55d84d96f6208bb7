"""Tables of the scipy modes: positions, neighbours, weights, splits."""
from . import p27
from .p27 import *
from .ratio import add, mul, OPS

EXPLAIN = ('The interpolation of every scipy mode is evaluated abstractly from the settings to the table: points of the tree and of the search as polynomials of sines and cosines, '
           'entries of the table for one target cell at a source point, within reach and out of reach, and the rows of every split.')
RULE = ('source points and cells are on one sphere by their own coordinates (rotated cells turned back); the table has the neighbours the search gives; '
        'weights are 1 at a source point, inverse squared distances over their sum within reach, none out of reach; splits are written to their own rows')
ASSUME = ['scipy trees give the nearest points in order of their distance', 'eccodes later than 1.14.3']
SEARCH = ('nearest', 'invdist', 'adw', 'cdd', 'bilinear')
TREES = ('scipy.spatial.cKDTree', 'scipy.spatial.KDTree', 'scipy.spatial.ckdtree.cKDTree')
SLON, SLAT, GRID, TLON, TLAT = (N('param', x) for x in ('source longitudes', 'source latitudes', 'grid', 'target longitudes', 'target latitudes'))
SPLITS = 'interpolation.num_of_splits'
DEG = N('degree')
ABSENT = N('nothing selected')
POS = ('row of the cell',)
SKIN = ('ravel', 'flatten', 'copy', 'reshape', 'astype', 'squeeze', 'view')
SAME = ('numpy.float32', 'numpy.float64', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.ravel', 'float', 'numpy.asanyarray')


class Geo:
    """one evaluation"""


def decider(rotated, splits, single):
    def dec(a):
        if a.op == 'exc_in':
            return False
        if a.op in ('isnone', 'truth') and cfg_key(a.args[0]) == SPLITS:
            return splits == (a.op == 'truth')
        if a.op in ('isnone', 'truth') and cfg_key(a.args[0]) == 'interpolation.rotated_target':
            return rotated == (a.op == 'truth')
        if a.op in ('eq', 'lt') and any(mentions(x, lambda y: y.op == 'attr' and y.args[1] == 'dtype') for x in a.args):
            return single if a.op == 'eq' and mentions(a, lambda y: is_const(y, 'float32') or ext_name(y) == 'numpy.float32') else None
        if a.op in ('eq', 'lt') and mentions(a, lambda y: y.op == 'ext' and 'codes_get_api_version' in str(y.args[0])):
            v = [version(x) for x in a.args]
            return None if None in v else v[0] == v[1] if a.op == 'eq' else v[0] < v[1]
        return None
    return dec


def version(x):
    if is_const(x):
        return x.args[0]
    if x.op == 'sub' and is_const(x.args[1], 0, 1, 2):
        return (2, 40, 0)[x.args[1].args[0]]
    return None


def check(rep, overlay=None):
    items = [(m, r, s, f) for m in MODES if m not in GRIB for r in (False, True) for s in (False, True) for f in (False, True)
             if not (f and (r or m not in ('nearest', 'invdist'))) and (m in SEARCH or s)]
    rep.each(items, lambda r, it: one(r, overlay, *it))


def run(overlay, mode, rotated, splits, single):
    k = interpolate(overlay, mode)
    v, live = k.vals[0]
    calls = []
    for n in walk(v):
        if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[0].op == 'op' and n.args[0].args[0].args[0] == 'scipy' and n not in calls:
            calls.append(n)
    g = Geo()
    if len(calls) != 1:
        return None
    call = calls[0]
    new = call.args[0].args[0]
    names = {LONS: SLON, LATS: SLAT}

    def marked(x):
        if x in names:
            return names[x]
        y = x
        while y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] in SKIN:
            y = y.args[0].args[0]
        if y in names:
            return rewrite(x, lambda z: names.get(z, z), {})
        c = coordinate(x) if is_array(x) else None
        if c:
            return TLON if c == 'interpolation.lonMap' else TLAT
        if y.op == 'param' and y.args[0] == 'geodetic_info':
            return GRID
        if is_const(x) or cfg_key(x) or mentions(x, lambda z: z is V) or x.op == 'param':
            return x
        return N('param', 'given', show(x, 6)[:60])

    e = engine(overlay, {'invoke': stub(g)} if mode == 'bilinear' else {}, forget=False)
    e.decide = decider(rotated, splits, single)
    st = e.state()
    o, st, r = e.run(e.find_class('ScipyInterpolation'), [marked(x) for x in new.args[1]], {a: marked(b) for a, b in new.args[2]}, st)
    g.args = [marked(x) for x in call.args[1]]
    v, st, r2 = e.run(e.getattr(o, call.args[0].args[1], st), g.args, {a: marked(b) for a, b in (call.args[2] or ())}, st)
    g.e, g.v, g.k, g.mode = e, e.freeze(v, st), e, mode
    g.dec = e.decide
    return g


def is_array(x):
    """coordinates of a map, not its missing value"""
    ls = [l for _, l in leaves(x)]
    return all(not (l.op == 'attr' and l.args[1] == 'mv') and not (l.op == 'sub' and l.args[0].op == 'ext') for l in ls)


def stub(g):
    """the weights of the bilinear mode are not looked at"""
    def invoke(e, fi, selfn, args, kw, st):
        vals = [e.freeze(a, st) for a in list(args) + list(kw.values())]
        if fi.cls is not None and sum(1 for a in vals if a.op == 'sub' and is_query(a.args[0])) >= 2:
            i, d = (next((a for a in vals if a.op == 'sub' and is_query(a.args[0]) and is_const(a.args[1], j)), None) for j in (1, 0))
            return N('tuple', (N('op', 'field'), N('op', 'weights', d), i))
        return None
    return invoke


def is_query(n):
    return n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'query' and is_tree(n.args[0].args[0])


def is_tree(n):
    return n.op == 'call' and ext_of(n) in TREES


# ------------------------------------------------------------------ positions
def plainarray(n):
    while True:
        if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in SKIN:
            n = n.args[0].args[0]
        elif n.op == 'call' and ext_of(n) in SAME and n.args[1]:
            n = n.args[1][0]
        else:
            return n


def coordinates(n):
    """the three arrays of a set of points"""
    n0 = n
    while n.op == 'call' and ext_of(n) in ('numpy.float32', 'numpy.float64', 'numpy.asarray', 'numpy.ascontiguousarray') and n.args[1]:
        n = n.args[1][0]
    t = False
    if n.op == 'attr' and n.args[1] == 'T':
        n, t = n.args[0], True
    elif n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'transpose' and not n.args[1]:
        n, t = n.args[0].args[0], True
    elif n.op == 'call' and ext_of(n) == 'numpy.transpose' and len(n.args[1]) == 1:
        n, t = n.args[1][0], True
    if n.op == 'call' and n.args[1]:
        f, kw = ext_of(n), dict(n.args[2] or ())
        xs = n.args[1][0]
        ax = kw.get('axis', n.args[1][1] if len(n.args[1]) > 1 else const(0))
        rows = f in ('numpy.vstack', 'numpy.array', 'numpy.row_stack', 'numpy.asarray') or f == 'numpy.stack' and is_const(ax, 0)
        cols = f == 'numpy.column_stack' or f == 'numpy.stack' and is_const(ax, 1, -1)
        if xs.op in ('tuple', 'listv') and len(xs.args[0]) == 3 and (rows and t or cols and not t):
            return xs.args[0]
    if n.op == 'sub':
        raise Wrong('some of the points are left out')
    raise Unknown(f'points {show(n0, 4)[:120]}')


def poly(n, memo):
    """arithmetic of sines and cosines as a rational function"""
    def f(x):
        if x.op == 'ne':
            return x.args[0] if not isinstance(x.args[0], Node) else rewrite(x.args[0], f, memo)
        if x.op == 'call':
            y = plainarray(x)
            if y is not x:
                return rewrite(y, f, memo)
            nm = x.args[0].args[0] if x.args[0].op == 'nefn' else (ext_of(x) or '').split('.')[-1] if (ext_of(x) or '').startswith(('numpy.', 'math.')) else None
            if nm in ('sin', 'cos') and len(x.args[1]) == 1:
                return trig(nm, x.args[1][0])
            if nm in ('radians', 'deg2rad'):
                return N('bin', '*', x.args[1][0], DEG)
        if x.op == 'ext' and x.args[0] in ('numpy.pi', 'math.pi'):
            return N('bin', '*', const(180), DEG)
        if x.op == 'un' and x.args[0] == '-':
            return N('bin', '*', const(-1), x.args[1])
        return x
    return ratio(rewrite(n, f, memo))


def trig(name, x):
    p, q = ratio(x)
    items = sorted(((tuple(repr(a) for a in m), c, m) for m, c in p.items()), key=lambda t: t[0])
    sign = -1 if items and items[0][1] < 0 else 1
    body = N(name, tuple((m, c * sign) for _, c, m in items), tuple(sorted(q.items(), key=repr)))
    return N('bin', '*', const(-1), body) if sign < 0 and name == 'sin' else body


def angle(n):
    """sine and cosine of an angle in degrees"""
    x = N('bin', '*', n, DEG)
    return trig('sin', x), trig('cos', x)


def T(*xs):
    r = num(1), num(1)
    for x in xs:
        r = times(r, ratio(x) if isinstance(x, Node) else x)
    return r


def sphere(lon, lat):
    (sl, cl), (sp, cp) = angle(lon), angle(lat)
    return [T(cp, cl), T(cp, sl), T(sp)]


def grid_value(name, nodes):
    """how the grid's value is read"""
    out = []
    for n in nodes:
        for x in walk(n):
            if (x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and x.args[0].args[0] is GRID and x.args[1] and is_const(x.args[1][0], name)
                    or x.op == 'sub' and x.args[0] is GRID and is_const(x.args[1], name)) and x not in out:
                out.append(x)
    return out


def positions(rep, tag, what, pts, lon, lat, turned, fn):
    try:
        xyz = coordinates(pts)
    except Wrong as x:
        rep.ob(f'{tag}:{what}', False, fn, f'{tag}, {what}: {x}')
        return None
    except Unknown as x:
        rep.need(False, f'{tag}: {x}')
    rs = grid_value('radius', xyz)
    r = rs[0] if len(rs) == 1 else None
    want = sphere(lon, lat)
    if turned:
        plat, plon = (grid_value(f'{x}OfSouthernPoleInDegrees', xyz) for x in ('latitude', 'longitude'))
        if len(plat) != 1 or len(plon) != 1:
            rep.ob(f'{tag}:{what}:pole', False, fn, f'{tag}: {what} are not turned by the pole of the grid')
            return None
        (st, ct), (sf, cf) = angle(N('bin', '*', const(-1), N('bin', '+', const(90), plat[0]))), angle(N('bin', '*', const(-1), plon[0]))
        x, y, z = want
        minus = num(-1), num(1)
        want = [plus(plus(T(ct, cf, x), T(sf, y)), T(st, cf, z)),
                plus(plus(T(minus, ct, sf, x), T(cf, y)), T(minus, st, sf, z)),
                plus(T(minus, st, x), T(ct, z))]
    memo = {}
    for i, (got, w) in enumerate(zip(xyz, want)):
        p = poly(got, memo)
        w = T(w, r) if r is not None else w
        rep.ob(f'{tag}:{what}:{"xyz"[i]}', equal(p, w), fn,
               f'{tag}: {"xyz"[i]} of {what} is not that of their coordinates{" turned back by the pole of the grid" if turned else ""} on the sphere')
    return r


# ------------------------------------------------------------------ the table of one cell
class Tab(Ev):
    """entry of the table for one cell; where: 'at' a source point, 'near' within reach, 'far' out of reach"""

    def __init__(self, g, query, n, where):
        self.k, self.w, self.mode = g, p27.World(False, False, ['valid'] * n), g.mode
        self.g, self.query, self.n, self.where = g, query, n, where
        self.memo, self.bounds = {}, []
        self.place = lambda a: self.known(a)
        self.loops = ()

    def known(self, a):
        if a.op == 'iter' or a.op == 'raises':
            return a.op == 'iter'
        return self.g.dec(a)

    def vec(self, f):
        return Vec([f(j) for j in range(self.n)]) if self.n > 1 else f(0)

    def ev1(self, n, env):
        if n.op == 'sub' and n.args[0] is self.query:
            return self.vec(lambda j: Cell(False, N('distance', j), False)) if is_const(n.args[1], 0) else self.vec(Idx)
        if n is self.query:
            return (self.vec(lambda j: Cell(False, N('distance', j), False)), self.vec(Idx))
        if n.op in ('bin', 'call') and (ext_of(n) or '') not in ('numpy.max', 'numpy.amax') and self.is_bound(n) or n.op == 'call' and self.is_bound(n):
            if n not in self.bounds:
                self.bounds.append(n)
            return Cell(False, N('bound', n), False)
        if n.op == 'call' and ext_of(n) in SAME and n.args[1]:
            return self.ev(n.args[1][0], env)
        return super().ev1(n, env)

    def is_bound(self, n):
        if n not in BOUND:
            q = any(is_query(x) for x in walk(n))
            BOUND[n] = q and not any(x is TLON or x is TLAT or x is self.query for x in walk(n)) and not is_query(n)
        return BOUND[n]

    def decide(self, a):
        d = super().decide(a)
        return d

    def decide_in(self, a, env):
        d = super().decide_in(a, env)
        if d is None and a.op in ('eq', 'lt'):
            d = self.ev(a, env)
            d = d if isinstance(d, bool) else None
        return d

    def truthf(self, f, env):
        if f not in (0, 1):
            v = B.top(f)
            if self.place(B.atoms[v]) is None and B.atoms[v].op not in ('eq', 'lt', 'acmp', 'isnone', 'isinst'):
                lo, hi = B.cof(f, v)
                x, y = self.truthf(hi, env), self.truthf(lo, env)
                if same(x, y):
                    return x
        return super().truthf(f, env)

    def compare(self, o, x, y):
        if any(isinstance(a, Idx) and (isinstance(b, float) or isinstance(b, Cell) and b.data.op in ('distance', 'bound')) for a, b in ((x, y), (y, x))):
            raise Wrong('an index is compared with a distance')
        if isinstance(y, Cell) and y.data.op == 'distance':
            x, y, o = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
        if isinstance(x, Cell) and x.data.op == 'distance':
            if x.data.args[0] != 0:
                raise Unknown('distances of further neighbours are compared')
            if isinstance(y, Cell) and is_const(y.data):
                y = y.data.args[0]
            if isinstance(y, (int, float)):
                if not 0 <= y <= 1e-3:
                    raise Unknown(f'distance is compared with {y}')
                at = self.where == 'at'
                return {'<': at and y > 0, '<=': at, '>': not at, '>=': not at or y == 0, '==': at and y == 0, '!=': not (at and y == 0)}[o]
            if isinstance(y, Cell) and y.data.op == 'bound':
                far = self.where == 'far'
                return {'<': not far, '<=': not far, '>': far, '>=': far, '==': False, '!=': True}[o]
            raise Unknown('the distance is compared with another one')
        return super().compare(o, x, y)

    def arith(self, o, x, y):
        if x is ABSENT or y is ABSENT:
            return ABSENT
        if any(isinstance(a, Idx) for a in (x, y)):
            raise Wrong('indexes are used in arithmetic')
        if o == '**' and not isinstance(x, Vec) and (y if isinstance(y, int) else y.data.args[0] if isinstance(y, Cell) and is_const(y.data) else None) == 2:
            return self.arith('*', x, x)
        return super().arith(o, x, y)

    def attr(self, n, env):
        if n.args[1] == 'shape':
            return Shape()
        if n.args[1] == 'T' or n.args[1] == 'size' and not mentions(n.args[0], lambda x: x is V):
            raise Unknown(show(n, 3)[:120])
        return super().attr(n, env)

    def sub(self, n, env):
        x = self.ev(n.args[0], env)
        if x is POS or isinstance(x, Shape):
            raise Unknown(show(n, 3)[:120])
        i = self.ev(n.args[1], env)
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], bool):
            x, i = (x if i[0] else ABSENT), (slice(None), i[1])
        if x is ABSENT:
            return ABSENT
        if isinstance(i, bool) and isinstance(x, (Vec, Cell, Idx)):
            return x if i else ABSENT
        if i is POS and isinstance(x, (Vec, Cell, Idx)):
            return x
        if isinstance(i, tuple) and len(i) == 2 and i[0] is POS and isinstance(x, Vec):
            return x.xs[i[1]]
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and isinstance(i[1], slice) and isinstance(x, Vec):
            return x
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[1] is None:
            return x
        return super().sub(n, env)

    def update(self, n, env):
        base, key, val = n.args
        if key.op == 'slice' and not all(is_const(x, None) for x in key.args):
            raise Unknown(show(n, 3)[:120])
        k = slice(None) if key.op == 'slice' else self.ev(key, env)
        if isinstance(k, slice) or k is POS:
            return self.spread(self.ev(val, env))
        if isinstance(k, int) and not isinstance(k, bool):
            return self.place_at(self.ev(base, env), k, self.ev(val, env))
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], (int, slice)):
            if k[0] is True or k[0] is POS or isinstance(k[0], slice):
                b, v = self.ev(base, env), self.ev(val, env)
                return self.spread(v) if isinstance(k[1], slice) else self.place_at(b, k[1], v)
            if k[0] is False:
                return self.ev(base, env)
        if isinstance(k, bool):
            return self.spread(self.ev(val, env)) if k else self.ev(base, env)
        raise Unknown(show(n, 3)[:120])

    def spread(self, v):
        return Cell(False, const(v), False) if isinstance(v, (int, float)) and not isinstance(v, bool) else v

    def place_at(self, b, i, v):
        if not isinstance(b, Vec):
            b = Vec([b] * self.n)
        v = self.spread(v)
        xs = list(b.xs)
        xs[i] = v
        return Vec(xs)

    def call(self, n, env):
        fn, a, kw = ext_of(n), n.args[1], dict(n.args[2] or ())
        if fn in ('numpy.zeros', 'numpy.ones') and a and is_const(a[0]) and a[0].args[0] == self.n and self.n > 1:
            return Vec([Cell(False, const(0 if 'zeros' in fn else 1), False)] * self.n)
        if fn in ('numpy.square',):
            v = self.ev(a[0], env)
            return self.arith('*', v, v)
        if fn in ('numpy.power',) and is_const(a[1], 2):
            v = self.ev(a[0], env)
            return self.arith('*', v, v)
        if fn in ('numpy.reciprocal',):
            return self.arith('/', 1, self.ev(a[0], env))
        if fn in OPS:
            return self.arith(OPS[fn], self.ev(a[0], env), self.ev(a[1], env))
        if fn in ('numpy.less', 'numpy.less_equal', 'numpy.greater', 'numpy.greater_equal') and len(a) == 2:
            return self.compare({'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}[fn.split('.')[1]], self.ev(a[0], env), self.ev(a[1], env))
        if fn in ('numpy.where', 'numpy.ma.where') and len(a) == 3:
            c = self.ev(a[0], env)
            if isinstance(c, bool):
                return self.spread(self.ev(a[1 if c else 2], env))
        if n.args[0].op == 'attr' and n.args[0].args[1] == 'fill' and a:
            return self.spread(self.ev(a[0], env))
        if fn == 'numpy.full' and len(a) > 1:
            return self.spread(self.ev(a[1], env))
        if fn == 'numpy.sum' and a and not self.axis(a, kw, 1) and isinstance(self.ev(a[0], env), (Vec, Cell)):
            raise Wrong('values of different cells are added')
        if n.args[0].op == 'attr' and n.args[0].args[1] == 'sum' and self.axis(a, kw, 0):
            return self.total(self.ev(n.args[0].args[0], env))
        return super().call(n, env)

    def total(self, v, ma=None):
        return ABSENT if v is ABSENT else super().total(v, ma)

    def loop(self, n, env):
        L = n.args[0]
        it = self.k.e.loopinfo[L]['iter']
        if it is None:
            raise Unknown('loop on a condition')
        item = self.over(it, env)
        if item is None:
            return super().loop(n, env)
        mus = [N('mu', *m) for m in self.k.e.mus if m[0] == L and self.used(n, N('mu', *m))]
        at = dict(env)
        for m in mus:
            init, nxt = self.k.e.mus[m.args]
            if is_const(init, 0) and self.counts(constrain(nxt, atom(N('iter', L))), m):
                at[m] = POS
            elif is_const(init) or init.op == 'bin':
                raise Unknown(f'{m.args[1]} over the cells')
            else:
                at[m] = self.ev(init, env)
        for m in mus:
            for x in walk(self.k.e.mus[m.args][1]):
                if x.op == 'elem' and x.args[0] == L:
                    at[x] = item if x.args[1] is it else self.ev(x.args[1], env)
                elif x.op == 'lidx' and x.args[0] == L:
                    at[x] = POS
        at = Env(at)
        return self.ev1(constrain(self.k.e.mus[n.args][1], atom(N('iter', L))), at)

    def counts(self, nxt, m):
        ls = leafset(nxt)
        return all(x.op == 'bin' and x.args[0] == '+' and m in x.args[1:] and any(is_const(y, 1) for y in x.args[1:]) for x in ls)

    def used(self, n, m):
        """m matters for n"""
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [y for y in walk(self.k.e.mus[x.args][1]) if y.op == 'mu' and y.args[0] == n.args[0]]
        return m in seen

    def over(self, it, env):
        """what a loop over the cells gives for the cell"""
        if it.op == 'call':
            fn, a = ext_of(it), it.args[1]
            if fn == 'zip':
                xs = tuple(self.ev(x, env) for x in a)
                return xs if self.n == 1 or all(isinstance(x, Vec) for x in xs) else None
            if fn == 'enumerate' and len(a) == 1:
                x = self.over(a[0], env)
                return None if x is None else (POS, x)
            if fn == 'range' and len(a) == 1 and self.cells(a[0]):
                return POS
        if self.n == 1 or it.op == 'sub':
            x = self.ev(it, env)
            if isinstance(x, (Cell, Idx)) or isinstance(x, Vec):
                return x
        return None

    def cells(self, n):
        """number of cells"""
        n0 = n
        if n.op == 'call' and ext_of(n) == 'len' or n.op == 'attr' and n.args[1] == 'size' or n.op == 'sub' and is_const(n.args[1], 0) and n.args[0].op == 'attr' and n.args[0].args[1] == 'shape':
            x = n.args[1][0] if n.op == 'call' else n.args[0] if n.op == 'attr' else n.args[0].args[0]
            return mentions(x, lambda y: y is self.query) or any(y is TLON or y is TLAT for y in walk(x))
        return False


BOUND = {}


def deep(g, n):
    """all values n is made of, through loops"""
    seen, todo = {}, [n]
    while todo:
        for x in walk(todo.pop()):
            if x not in seen:
                seen[x] = True
                if x.op == 'mu':
                    todo += [y for y in g.e.mus[x.args] if isinstance(y, Node)]
                    it = g.e.loopinfo[x.args[0]]['iter']
                    todo += [it] if it is not None else []
    return seen


# ------------------------------------------------------------------ rules
def one(rep, overlay, mode, rotated, splits, single):
    fn = 'ScipyInterpolation.interpolate'
    tag = f'{mode}{":rotated" if rotated else ""}{":splits" if splits else ""}{":single" if single else ""}'
    g = run(overlay, mode, rotated, splits, single)
    rep.need(g is not None, f'{mode}: the interpolation with scipy was not found')
    rep.scenario(g.e, tag)
    ls = leafset(g.v)
    rep.need(len(ls) == 1 and ls[0].op == 'tuple' and len(ls[0].args[0]) == 3, f'{tag}: the result is not field, weights and indexes')
    parts = ls[0].args[0]
    given = g.args
    rep.ob(f'{tag}:coordinates', given[:2] == [TLON, TLAT], 'Interpolator.interpolate', f'{tag}: the cells are not at the longitudes and latitudes of the maps')
    lon, lat = TLON, TLAT
    if splits:
        parts, lon, lat = rows(rep, g, tag, parts, fn)
        if parts is None:
            return
    if mode not in SEARCH:
        return
    trees = {x for p in parts[1:] for x in deep(g, p) if is_tree(x)}
    queries = [x for x in dict.fromkeys(x for p in parts[1:] for x in deep(g, p)) if is_query(x) and any(y in (TLON, TLAT) for y in walk(x))]
    n = NNEAR[mode]
    mine = []
    for q in queries:
        kw = dict(zip(('x', 'k', 'eps', 'p', 'distance_upper_bound', 'workers'), q.args[1]))
        kw.update(dict(q.args[2] or ()))
        if splits and not any(x in (lon, lat) for x in walk(kw['x'])):
            continue
        mine.append((q, kw))
    rep.need(mine, f'{tag}: the search of the neighbours was not found')
    main = [(q, kw) for q, kw in mine if q in deep(g, parts[2])]
    rep.ob(f'{tag}:search', len(main) == 1, fn, f'{tag}: the indexes of the table are not those of one search')
    if len(main) != 1:
        return
    q, kw = main[0]
    rep.ob(f'{tag}:number', is_const(kw.get('k', const(1)), n), fn, f'{tag}: {show(kw.get("k", const(1)), 3)[:40]} neighbours are searched instead of {n}')
    for o, d in (('eps', 0), ('p', 2), ('distance_upper_bound', None)):
        rep.ob(f'{tag}:{o}', o not in kw or is_const(kw[o], d), fn, f'{tag}: the neighbours are searched with {o}={show(kw.get(o, const(None)), 2)[:40]}')
    tree = q.args[0].args[0]
    rep.ob(f'{tag}:tree', len(trees) == 1, fn, f'{tag}: neighbours and reach are searched in different trees')
    src = tree.args[1][0] if tree.args[1] else dict(tree.args[2] or ()).get('data')
    rep.need(src is not None, f'{tag}: tree without points')
    r1 = positions(rep, tag, 'source points', src, SLON, SLAT, False, fn)
    r2 = positions(rep, tag, 'target cells', kw['x'], lon, lat, rotated, fn)
    rep.ob(f'{tag}:radius', r1 is r2, fn, f'{tag}: source points and target cells are on spheres of different radius')
    if mode == 'bilinear':
        return
    entries(rep, g, tag, mode, q, src, n, parts, fn)


def entries(rep, g, tag, mode, q, src, n, parts, fn):
    bounds = []
    for where in ('at', 'near', 'far'):
        if mode == 'cdd' or mode == 'adw' and where != 'at':
            continue
        t = Tab(g, q, n, where)
        text = {'at': 'at a source point', 'near': 'within reach of a source point', 'far': 'out of reach of the source points'}[where]
        try:
            ix = t.ev(parts[2])
            w = t.ev(parts[1]) if n > 1 else None
        except Wrong as x:
            rep.ob(f'{tag}:{where}', False, fn, f'{tag}, cell {text}: {x}')
            continue
        except Unknown as x:
            rep.need(False, f'{tag}, cell {text}: the table cannot be followed: {x}')
        bounds += t.bounds
        js = ix.xs if isinstance(ix, Vec) else [ix] * n
        ws = (w.xs if isinstance(w, Vec) else [w] * n) if n > 1 else None
        if where == 'far':
            none = all(isinstance(j, tuple) and j[0] in ('size', 'len') and not j[1] for j in js) if n == 1 else all(isinstance(x, Cell) and x.data is NOT for x in ws)
            rep.ob(f'{tag}:far', none, fn, f'{tag}: a cell {text} gets {"one" if n == 1 else "weights"}')
            continue
        own = all(isinstance(j, Idx) and j.j == i for i, j in enumerate(js))
        if where == 'at' and n > 1:
            own = isinstance(js[0], Idx) and js[0].j == 0 and all(isinstance(j, Idx) for j in js)
        rep.ob(f'{tag}:{where}:points', own, fn, f'{tag}: the points of a cell {text} are not its neighbours in their order')
        if n == 1:
            continue
        if where == 'at':
            good = all(isinstance(x, Cell) and is_const(x.data, 1 if i == 0 else 0) for i, x in enumerate(ws))
            rep.ob(f'{tag}:at:weights', good, fn, f'{tag}: a cell {text} does not get the value of the point alone')
            continue
        d2 = [times(of(N('distance', i)), of(N('distance', i))) for i in range(n)]
        total = num(0), num(1)
        for d in d2:
            total = plus(total, over((num(1), num(1)), d))
        for i, x in enumerate(ws):
            good = isinstance(x, Cell) and x.data is not NOT and equal(ratio(x.data), over(over((num(1), num(1)), d2[i]), total))
            rep.ob(f'{tag}:near:weight{i}', good, fn, f'{tag}: weight {i + 1} of a cell {text} is not the inverse of its squared distance over the sum of the inverses')
    if mode in ('adw', 'cdd'):
        rep.ob(f'{tag}:sum', normalised(parts[1]), fn, f'{tag}: the weights of a cell are not divided by their sum')
        return
    rep.ob(f'{tag}:reach', len(set(bounds)) == 1, fn, f'{tag}: the reach is not one distance')
    for b in set(bounds):
        rep.ob(f'{tag}:reach:value', reach(b, src), fn, f'{tag}: the reach is not the largest distance between neighbouring source points and four times that over the number of rows')


def normalised(n):
    """values over their own sum along the neighbours, up to cells whose weights are stored"""
    while n.op == 'upd' and (n.args[1].op == 'bool' or n.args[1].op in ('lt', 'acmp', 'ite')):
        n = n.args[0]
    if n.op == 'ite':
        return normalised(n.args[1]) and normalised(n.args[2])
    n = plainarray(n)
    if n.op == 'call' and OPS.get(ext_of(n)) == '/':
        x, s = n.args[1]
    elif n.op == 'bin' and n.args[0] == '/':
        x, s = n.args[1:]
    else:
        return False
    while s.op == 'sub' and s.args[1].op == 'tuple' and any(is_const(y, None) or ext_name(y) == 'numpy.newaxis' for y in s.args[1].args[0]) or s.op == 'call' and s.args[0].op == 'attr' and s.args[0].args[1] == 'reshape':
        s = s.args[0] if s.op == 'sub' else s.args[0].args[0]
    if s.op != 'call':
        return False
    kw = dict(s.args[2] or ())
    if ext_of(s) == 'numpy.sum':
        y, ax = s.args[1][0], kw.get('axis', s.args[1][1] if len(s.args[1]) > 1 else None)
    elif s.args[0].op == 'attr' and s.args[0].args[1] == 'sum':
        y, ax = s.args[0].args[0], kw.get('axis', s.args[1][0] if s.args[1] else None)
    else:
        return False
    return ax is not None and is_const(ax, 1, -1) and y is x


def reach(b, src):
    """max * (1 + 4 / Nj)"""
    qs = [x for x in walk(b) if is_query(x)]
    if len(set(qs)) != 1:
        return False
    q = qs[0]
    kw = dict(zip(('x', 'k'), q.args[1]))
    kw.update(dict(q.args[2] or ()))
    if kw['x'] is not src or not is_const(kw.get('k', const(1)), 2):
        return False
    top, rows = N('largest'), N('rows')

    def f(x):
        if x.op == 'call':
            if ext_of(x) in ('numpy.max', 'numpy.amax') and len(x.args[1]) == 1 and not x.args[2] and dist(x.args[1][0]):
                return top
            if x.args[0].op == 'attr' and x.args[0].args[1] == 'max' and not x.args[1] and dist(x.args[0].args[0]):
                return top
        if grid_value('Nj', [x]) and x in grid_value('Nj', [x]):
            return rows
        return x

    def dist(x):
        x = plainarray(x)
        if x.op == 'sub' and x.args[0].op == 'sub' and x.args[1].op == 'tuple' and is_const(x.args[1].args[0][-1], 1, -1):
            x = x.args[0]
        return x.op == 'sub' and x.args[0] is q and is_const(x.args[1], 0)
    got = ratio(rewrite(b, f, {}))
    return equal(got, plus(of(top), over(times(of(top), num4()), of(rows))))


def num4():
    return num(4), num(1)


# ------------------------------------------------------------------ splits
def rows(rep, g, tag, parts, fn):
    """the part of one split, with the coordinates of its cells; checks where it goes"""
    out, L, span = [parts[0]], None, None
    for i, name in ((1, 'weights'), (2, 'indexes')):
        p = parts[i]
        rep.need(p.op == 'mu', f'{tag}: {name} are not collected in a loop')
        init, nxt = g.e.mus[p.args]
        rep.need(L in (None, p.args[0]), f'{tag}: weights and indexes are collected in different loops')
        L = p.args[0]
        us = [x for x in leafset(constrain(nxt, atom(N('iter', L)))) if x is not p]
        rep.need(len(us) == 1 and us[0].op == 'upd' and us[0].args[0] is p, f'{tag}: {name} of a split are not stored')
        key = us[0].args[1]
        if key.op == 'tuple' and key.args[0] and all(x.op == 'slice' and all(is_const(y, None) for y in x.args) for x in key.args[0][1:]):
            key = key.args[0][0]
        rep.need(key.op == 'slice', f'{tag}: {name} of a split are not stored in consecutive rows')
        out.append(us[0].args[2])
        if span is None:
            span = key.args[:2]
        rep.ob(f'{tag}:{name}:rows', same_span(key.args[:2], span) and (len(key.args) < 3 or is_const(key.args[2], None, 1)), fn, f'{tag}: weights and indexes of a split are stored in different rows')
        shape = sizes(init)
        want = [of(N('rows')), of(N('columns'))]
        rep.need(shape is not None, f'{tag}: {name}: array of unknown shape')
        n = NNEAR[g.mode]
        good = equal(ratio(rewrite(shape[0], dims, {})), times(*want)) and (len(shape) == 1 if n == 1 else len(shape) == 2 and is_const(shape[1], n))
        rep.ob(f'{tag}:{name}:shape', good, fn, f'{tag}: the {name} of all splits have not one entry per cell{f" of {n}" if n > 1 else ""}')
    subs = {}
    for p in out[1:]:
        for x in deep(g, p):
            if x.op == 'sub' and x.args[0] in (TLON, TLAT) and mentions(x.args[1], lambda y: y.op in ('elem', 'mu', 'lidx') and y.args[0] == L):
                subs.setdefault(x.args[0], set()).add(x)
    if {len(v) for v in subs.values()} != {1} or len(subs) != 2:
        rep.ob(f'{tag}:cells', False, fn, f'{tag}: a split does not take one block of rows of the longitudes and one of the latitudes')
        return None, None, None
    lon, lat = (next(iter(subs[x])) for x in (TLON, TLAT))
    rep.ob(f'{tag}:cells', lon.args[1] is lat.args[1], fn, f'{tag}: a split takes different rows of the longitudes and the latitudes')
    key = lon.args[1]
    if key.op == 'tuple':
        rest = key.args[0][1:]
        rep.ob(f'{tag}:columns', all(x.op == 'slice' and all(is_const(y, None) for y in x.args) or is_const(x, ...) for x in rest), fn, f'{tag}: a split takes some columns only')
        key = key.args[0][0]
    rep.need(key.op == 'slice', f'{tag}: a split takes no block of rows')
    first, last, step = progress(rep, g, tag, L, key, fn)
    cols = of(N('columns'))
    for j, (b, s) in enumerate(zip((first, last), span)):
        good = equal(ratio(rewrite(s, dims, {})), times(ratio(rewrite(b, dims, {})), cols))
        rep.ob(f'{tag}:place{j}', good, fn, f'{tag}: the {"first" if j == 0 else "last"} entry of a split is not that of its {"first" if j == 0 else "last"} row')
    ls = [leafset(p) for p in out]
    return out, lon, lat


def same_span(a, b):
    return all(x is y for x, y in zip(a, b))


def dims(x):
    """numbers of rows and columns of the target"""
    if x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape' and x.args[0].args[0] in (TLON, TLAT):
        if is_const(x.args[1], 0, -2):
            return N('rows')
        if is_const(x.args[1], 1, -1):
            return N('columns')
    if x.op == 'call' and ext_of(x) == 'len' and x.args[1][0] in (TLON, TLAT):
        return N('rows')
    if x.op == 'attr' and x.args[1] == 'size' and x.args[0] in (TLON, TLAT) or x.op == 'call' and ext_of(x) == 'numpy.size' and x.args[1][0] in (TLON, TLAT):
        return N('bin', '*', N('rows'), N('columns'))
    return x


def sizes(n):
    while n.op == 'upd':
        n = n.args[0]
    if n.op == 'call' and (ext_of(n) or '').split('.')[-1] in ('empty', 'zeros', 'full', 'ones'):
        a = n.args[1][0] if n.args[1] else dict(n.args[2] or ()).get('shape')
        if a is None:
            return None
        return list(a.args[0]) if a.op in ('tuple', 'listv') else [a]
    return None


def progress(rep, g, tag, L, key, fn):
    """the blocks of rows follow each other from the first row to the last"""
    lo, hi = key.args[:2]
    it = g.e.loopinfo[L]['iter']
    R = N('rows')
    if it is not None:
        rep.need(it.op == 'call' and ext_of(it) == 'range', f'{tag}: loop over the splits')
        a = list(it.args[1])
        start, stop, step = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else const(1))
        el = [x for x in walk(lo) if x.op == 'elem' and x.args[0] == L]
        rep.need(el, f'{tag}: the rows of a split do not follow the loop')
        i = el[0]
        # lo = f(i), with f linear
        f0, f1 = (ratio(rewrite(rewrite(lo, lambda x: c if x is i else x, {}), dims, {})) for c in (start, N('bin', '+', i, step)))
        stop_row = ratio(rewrite(rewrite(lo, lambda x: stop if x is i else x, {}), dims, {}))
        covered = equal(stop_row, of(R)) or reaches(lo, i, stop)
    else:
        mus = [N('mu', *m) for m in g.e.mus if m[0] == L and mentions(lo, lambda x: x is N('mu', *m))]
        rep.need(len(mus) == 1, f'{tag}: the rows of a split do not follow the loop')
        i = mus[0]
        init, nxt = g.e.mus[i.args]
        nxt = leafset(constrain(nxt, atom(N('iter', L))))
        rep.need(len(nxt) == 1, f'{tag}: the next split')
        f0, f1 = (ratio(rewrite(rewrite(lo, lambda x: c if x is i else x, {}), dims, {})) for c in (init, nxt[0]))
        step = N('bin', '-', nxt[0], i)
        cond = g.e.loopinfo[L].get('cond')
        if cond is None:
            cond = g.e.loopinfo[L].get('test')
        covered = False
        for x in walk(cond) if isinstance(cond, Node) else [y for v in B.support(cond) for y in walk(B.atoms[v])] if isinstance(cond, int) else []:
            if x.op == 'lt' and equal(ratio(rewrite(x.args[0], dims, {})), of(i)) and equal(ratio(rewrite(x.args[1], dims, {})), of(R)):
                covered = True
    rep.ob(f'{tag}:first', equal(f0, (num(0), num(1))), fn, f'{tag}: the first split does not start at the first row')
    rep.ob(f'{tag}:next', equal(f1, ratio(rewrite(hi, dims, {}))), fn, f'{tag}: a split does not start where the one before ends')
    rep.ob(f'{tag}:all', covered, fn, f'{tag}: the splits end before the last row')
    rep.ob(f'{tag}:step', positive(rewrite(step, dims, {})), fn, f'{tag}: with more splits than rows a split has no rows')
    return lo, hi, step


def reaches(lo, i, stop):
    return False


def positive(n):
    """at least one, with positive numbers of rows and splits"""
    if is_const(n):
        return isinstance(n.args[0], (int, float)) and n.args[0] >= 1
    if n in (N('rows'), N('columns')):
        return True
    if n.op == 'call' and ext_of(n) in ('max', 'numpy.maximum', 'numpy.max'):
        xs = n.args[1][0].args[0] if len(n.args[1]) == 1 and n.args[1][0].op in ('tuple', 'listv') else n.args[1]
        return any(positive(x) for x in xs)
    if n.op == 'call' and ext_of(n) in ('math.ceil', 'numpy.ceil', 'int') and len(n.args[1]) == 1:
        x = n.args[1][0]
        if ext_of(n) != 'int':
            return x.op == 'bin' and x.args[0] == '/' and all(positive(y) or count(y) for y in x.args[1:])
        return positive(x)
    if n.op == 'bin' and n.args[0] == '+':
        return any(positive(x) and nonneg(y) for x, y in ((n.args[1], n.args[2]), (n.args[2], n.args[1])))
    if n.op == 'bin' and n.args[0] == '*':
        return all(positive(x) for x in n.args[1:])
    if n.op == 'un' and n.args[0] == '-' and n.args[1].op == 'bin' and n.args[1].args[0] == '//':
        # -(-a // b) rounds up
        a, b = n.args[1].args[1:]
        return a.op == 'un' and a.args[0] == '-' and positive(a.args[1]) and (positive(b) or count(b))
    if n.op == 'bin' and n.args[0] == '-' and n.args[1].op == 'bin':
        x, y = n.args[1:]
        if x.args[0] == '+' and y in x.args[1:]:
            return positive(x.args[1] if x.args[2] is y else x.args[2])
    if n.op == 'ite':
        return all(positive(x) for x in leafset(n))
    return False


def nonneg(n):
    return positive(n) or count(n) or is_const(n, 0) or n.op == 'bin' and n.args[0] in ('//', '*', '+', '/', '%') and all(nonneg(x) for x in n.args[1:])


def count(n):
    return cfg_key(n) == SPLITS
