"""Target maps are read as they are: values, missing value and the coordinates of every cell."""
from .pipe import *
from .p23 import code_of

EXPLAIN = ('The readers of maps and their users (target coordinates, elevation) are evaluated abstractly on datasets given by the names, numbers of dimensions and attributes of their variables; '
           'coordinate arrays are followed through reshaping and broadcasting to the coordinate of the row and the column of each cell.')
RULE = ('latitude of cell (i, j) is the i-th value of lat (y), longitude the j-th of lon (x); values are the cells of the first variable with two dimensions, or band 1 of the PCRaster map, as stored; '
        'missing value: missing_value, _FillValue, the default of integers or NaN; PCRaster: the no-data value')
ASSUME = ['the first dimension of the variable is the latitude']
INVALID_METHOD, WEIRD = 8400, 9000
L = 'pyg2p/main/interpolation/latlong.py'
RD = 'pyg2p/main/readers/netcdf.py'

FILES = {'geographic': (('lat', 1), ('lon', 1), ('dem', 2)), 'projected': (('x', 1), ('y', 1), ('crs', 0), ('dem', 2)), 'first': (('dem', 2), ('lon', 1), ('lat', 1)),
         'two': (('lat', 1), ('lon', 1), ('dem', 2), ('other', 2)), 'none': (('lat', 1), ('lon', 1), ('crs', 0))}
ATTRS = {f'{t}{n}': (t, a) for t in ('integer', 'float') for n, a in (('', ()), (' with missing_value', ('missing_value',)), (' with _FillValue', ('_FillValue',)), (' with both', ('missing_value', '_FillValue')))}


def check(rep, overlay=None):
    items = [('coords', f, 'float') for f in FILES] + [('dem', f, 'float with both') for f in FILES] + [('dem', 'geographic', a) for a in ATTRS] + [('pcr', None, None), ('pair', None, None)]
    rep.each(items, lambda r, it: {'coords': coords, 'dem': dem, 'pcr': pcr, 'pair': pair}[it[0]](r, overlay, it[1], it[2]), width=8)


class File:
    """a netCDF file: names and dimensions of its variables, attributes of those with two dimensions"""

    def __init__(self, kind, attrs):
        self.vars, (self.type, self.attrs) = FILES[kind], ATTRS[attrs]

    def var(self, name):
        return N('op', 'variable', const(name))

    def is_var(self, n):
        return isinstance(n, Node) and n.op == 'op' and n.args[0] == 'variable'

    def known(self, n, name):
        """attribute of a variable; None where there is none"""
        v = n.args[1].args[0]
        nd = dict(self.vars)[v]
        dims = {'lat': ('lat',), 'y': ('lat',), 'lon': ('lon',), 'x': ('lon',)}.get(v, ('lat', 'lon')[:nd])
        if name == 'dimensions':
            return N('tuple', tuple(const(d) for d in dims))
        if name == 'ndim':
            return const(nd)
        if name == 'shape':
            return N('tuple', tuple(N('op', 'size', const(d)) for d in dims))
        if name in ('missing_value', '_FillValue'):
            return N('op', 'attribute', n, const(name)) if nd == 2 and name in self.attrs else None
        if name in ('dtype', 'datatype'):
            return N('op', 'dtype', n)
        return N('attr', n, name)

    def hooks(self):
        def ext(e, nm, args, kw, st):
            if nm == 'netCDF4.Dataset':
                return N('op', 'dataset', e.freeze(args[0], st))
            if nm in ('hasattr', 'getattr') and args and self.is_var(args[0]) and is_const(args[1]):
                v = self.known(args[0], args[1].args[0])
                if v is not None and v.op == 'attr' and nm == 'hasattr':
                    return None
                return const(v is not None) if nm == 'hasattr' else v if v is not None else args[2] if len(args) > 2 else None
            if nm == 'numpy.issubdtype' and args[0].op == 'op' and args[0].args[0] == 'dtype':
                t = show(args[1], 2)
                return const(self.type == 'integer' and ('integer' in t or 'number' in t) or self.type == 'float' and ('float' in t or 'number' in t or 'inexact' in t))
            return None

        def getattr_(e, f, name, st):
            if f.op == 'op' and f.args[0] == 'dataset' and name == 'variables':
                return e.newref(st, HObj('dict', None, {const(a): self.var(a) for a, _ in self.vars}))
            if self.is_var(f):
                return self.known(f, name)
            if f.op == 'op' and f.args[0] == 'dtype' and name == 'kind':
                return const('i' if self.type == 'integer' else 'f')
            return None
        return {'ext': ext, 'getattr': getattr_}


# ---- coordinates: which value stands in each cell

class Unknown(Exception):
    pass


ONE = 'one'
SAME = ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.ma.getdata', 'numpy.copy', 'numpy.float64', 'numpy.squeeze', 'numpy.asanyarray', 'numpy.ma.filled')


def grid(n):
    """(dimensions, value): dimensions of the array, and the variables whose value of the row or column is multiplied in the cell"""
    if n.op == 'attr' and n.args[1] == 'data':
        return grid(n.args[0])
    if n.op == 'attr' and n.args[1] == 'T':
        d, v = grid(n.args[0])
        return d[::-1], v
    if n.op == 'op' and n.args[0] == 'variable':
        name = n.args[1].args[0]
        return {'lat': ('lat',), 'y': ('lat',), 'lon': ('lon',), 'x': ('lon',)}.get(name, ('lat', 'lon')), (name,)
    if n.op == 'const':
        return (), () if is_const(n, 1) else (n.args[0],)
    if n.op == 'sub':
        d, v = grid(n.args[0])
        k = n.args[1]
        if k.op == 'empty' or k.op == 'const' and k.args[0] is Ellipsis:
            return d, v
        ks = list(k.args[0]) if k.op == 'tuple' else [k]
        out, d = [], list(d)
        for x in ks:
            if is_const(x, None) or show(x, 2) == 'numpy.newaxis':
                out.append(1)
            elif x.op == 'slice' and all(is_const(y, None) or isinstance(y, Node) and is_const(y, None) for y in x.args):
                out.append(d.pop(0))
            else:
                raise Unknown(show(n, 4))
        return tuple(out) + tuple(d), v
    if n.op == 'bin' and n.args[0] in ('*', 'Mult'):
        return multiply(grid(n.args[1]), grid(n.args[2]), n)
    if n.op == 'bin' and n.args[0] in ('+', 'Add'):
        a, b = grid(n.args[1]), grid(n.args[2])
        if b[1] == (0,):
            a, b = b, a
        if a[1] == (0,):
            return multiply((a[0], ()), b, n)
    if n.op == 'call':
        nm, a, kw = ext_of(n), list(n.args[1]), dict(n.args[2])
        if nm is None and n.args[0].op == 'attr':
            a, nm = [n.args[0].args[0]] + a, 'numpy.' + n.args[0].args[1]
        if nm in SAME or nm in ('numpy.astype',):
            return grid(a[0])
        if nm in ('numpy.ones', 'numpy.zeros', 'numpy.full'):
            return size(a[0]), () if nm.endswith('ones') else (0,) if nm.endswith('zeros') else grid(a[1])[1]
        if nm in ('numpy.ones_like', 'numpy.zeros_like'):
            return grid(a[0])[0], () if 'ones' in nm else (0,)
        if nm == 'numpy.broadcast_to':
            return multiply(grid(a[0]), (size(a[1]), ()), n)
        if nm == 'numpy.reshape':
            d, v = grid(a[0])
            s = [y for x in a[1:] for y in (x.args[0] if x.op in ('tuple', 'listv') else [x])]
            if len(d) == 1:
                one = [is_const(x, 1) for x in s]
                if sum(one) == len(s) - 1:
                    return tuple(1 if o else d[0] for o in one), v
        if nm == 'numpy.expand_dims':
            d, v = grid(a[0])
            ax = (a[1] if len(a) > 1 else kw['axis'])
            i = ax.args[0] if ax.args[0] >= 0 else len(d) + 1 + ax.args[0]
            return d[:i] + (1,) + d[i:], v
        if nm == 'numpy.atleast_2d':
            d, v = grid(a[0])
            return (1,) * (2 - len(d)) + d, v
        if nm == 'numpy.transpose' and len(a) == 1:
            d, v = grid(a[0])
            return d[::-1], v
        if nm in ('numpy.tile', 'numpy.repeat') and len(a) > 1:
            d, v = grid(a[0])
            if nm == 'numpy.tile':
                s = size(a[1])
                d = (1,) * (len(s) - len(d)) + d
                s = (1,) * (len(d) - len(s)) + s
                if all(x == 1 or y == 1 for x, y in zip(d, s)):
                    return tuple(y if x == 1 else x for x, y in zip(d, s)), v
            elif 'axis' in kw or len(a) > 2:
                i = (kw.get('axis') or a[2]).args[0]
                i = i if i >= 0 else len(d) + i
                if d[i] == 1:
                    return d[:i] + size(a[1]) + d[i + 1:], v
    if n.op == 'sub' or n.op == 'op':
        pass
    raise Unknown(show(n, 4))


def size(n):
    if n.op == 'attr' and n.args[1] == 'shape':
        return grid(n.args[0])[0]
    out = []
    for x in (n.args[0] if n.op in ('tuple', 'listv') else [n]):
        if x.op == 'op' and x.args[0] == 'size':
            out.append(x.args[1].args[0])
        elif x.op == 'const':
            out.append(x.args[0])
        elif x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape' and x.args[1].op == 'const':
            out.append(size(x.args[0])[x.args[1].args[0]])
        elif x.op == 'attr' and x.args[1] == 'size' or x.op == 'call' and ext_of(x) == 'len':
            d = grid(x.args[0] if x.op == 'attr' else x.args[1][0])[0]
            if len(d) != 1 and x.op == 'attr':
                raise Unknown(show(n, 4))
            out.append(d[0])
        else:
            raise Unknown(show(n, 4))
    return tuple(out)


def multiply(a, b, n):
    (d, v), (f, w) = a, b
    k = max(len(d), len(f))
    d, f = (1,) * (k - len(d)) + d, (1,) * (k - len(f)) + f
    out = []
    for x, y in zip(d, f):
        if x != y and 1 not in (x, y):
            raise Unknown(f'sizes {x} and {y} in {show(n, 4)}')
        out.append(y if x == 1 else x)
    return tuple(out), tuple(sorted(v + w, key=str))


def coords(rep, overlay, kind, attrs):
    f = File(kind, attrs)
    e = engine(overlay, f.hooks())
    st = e.state()
    path = N('op', 'path')
    e.decide = ends(path, '.nc')
    v, st, r = e.run(e.find_class('LatLong'), [path, path], {}, st)
    rep.scenario(e, f'target coordinates of a netCDF map ({kind})')
    if kind == 'none':
        rep.ob('coords:refused', not st.g and all(code_of(o) == WEIRD for o in r), RD, 'a netCDF map without a variable of two dimensions is not refused')
        return
    rep.ob('coords:accepted', bool(st.g), L, f'a netCDF map ({kind}) is refused')
    want = ('y', 'x') if kind == 'projected' else ('lat', 'lon')
    for what, name in zip(('lats', 'lons'), want):
        g = e.freeze(e.getattr(v, what, st), st)
        for c, l in leaves(g, st.g):
            try:
                got = grid(l)
            except Unknown as x:
                got = str(x)
            rep.ob(f'coords:{what}', got == (('lat', 'lon'), (name,)), L, f'{what} of a netCDF map ({kind}) are not {name} of the {"row" if what == "lats" else "column"} in each cell but {got}')
    mv = e.freeze(e.getattr(v, 'mv', st), st)
    for c, l in leaves(mv, st.g):
        ok = l.op == 'sub' and 'default_fillvals' in show(l.args[0], 3) and any(y.op == 'op' and y.args[0] == 'variable' and y.args[1].args[0] in want for y in walk(l.args[1])) \
            or l.op == 'sub' and 'default_fillvals' in show(l.args[0], 3) and is_const(l.args[1], 'f8')
        rep.ob('coords:mv', ok, L, f'the missing value of a netCDF target is not the default of netCDF for the type of its coordinates: {show(l, 4)}')


def ends(path, suffix):
    def d(a):
        if a.op == 'truth' and isinstance(a.args[0], Node) and a.args[0].op == 'call' and mentions(a.args[0], lambda y: y is path):
            n = a.args[0]
            if n.args[0].op == 'attr' and n.args[0].args[1] == 'endswith':
                return any(is_const(x, suffix) for x in n.args[1])
        if a.op == 'eq' and any(isinstance(x, Node) and mentions(x, lambda y: y is path) for x in a.args):
            return any(is_const(x, suffix) for x in a.args)
        return None
    return d


def stored(l, f, main):
    """values of the variable as they are stored"""
    while l.op == 'attr' and l.args[1] == 'data' or l.op == 'call' and ext_of(l) in SAME or l.op == 'sub' and l.args[1].op == 'slice' and all(is_const(y, None) for y in l.args[1].args):
        l = l.args[0] if l.op != 'call' else l.args[1][0]
    return l is f.var(main)


def dem(rep, overlay, kind, attrs):
    f = File(kind, attrs)
    e = engine(overlay, f.hooks())
    st = e.state()
    path = N('op', 'path')
    e.decide = ends(path, '.nc')
    v, st, r = e.run(e.find_class('Dem'), [path], {}, st)
    rep.scenario(e, f'elevation of a netCDF map ({kind}, {attrs})')
    if kind == 'none':
        rep.ob('dem:refused', not st.g and all(code_of(o) == WEIRD for o in r), RD, 'a netCDF map without a variable of two dimensions is not refused')
        return
    rep.ob('dem:accepted', bool(st.g), RD, f'a netCDF map ({kind}, {attrs}) is refused')
    vals = e.freeze(e.getattr(v, 'values', st), st)
    for c, l in leaves(vals, st.g):
        raw = any(y.op == 'attr' and y.args[1] == 'data' or y.op == 'call' and ext_of(y) == 'numpy.ma.getdata' for y in walk(l))
        rep.ob('dem:values', stored(l, f, 'dem') and raw, RD, f'the values of a netCDF map ({kind}) are not those stored in its variable: {show(l, 4)}')
    mv = e.freeze(e.getattr(v, 'mv', st), st)
    for c, l in leaves(mv, st.g):
        want = (f.attrs + (None,))[0]
        if want:
            ok = l.op == 'op' and l.args[0] == 'attribute' and l.args[1] is f.var('dem') and is_const(l.args[2], want)
        elif f.type == 'integer':
            ok = l.op == 'sub' and 'default_fillvals' in show(l.args[0], 3) and any(y is N('op', 'dtype', f.var('dem')) for y in walk(l.args[1]))
        else:
            ok = l.op == 'nan' or show(l, 2) in ('numpy.nan', 'math.nan', "float('nan')")
        rep.ob(f'dem:mv:{attrs}', ok, RD, f'the missing value of a netCDF map of numbers ({attrs}) is {show(l, 4)}')


def pcr(rep, overlay, *_):
    e = engine(overlay)
    st = e.state()
    a, b = N('op', 'path', const('lat')), N('op', 'path', const('lon'))
    e.decide = both(ends(a, '.map'), ends(b, '.map'))
    v, st, r = e.run(e.find_class('LatLong'), [a, b], {}, st)
    rep.scenario(e, 'target coordinates of PCRaster maps')
    for what, p in (('lats', a), ('lons', b), ('mv', a)):
        band(rep, e, e.freeze(e.getattr(v, what, st), st), st, p, f'pcr:{what}', what, what != 'mv')
    e = engine(overlay)
    st = e.state()
    e.decide = ends(a, '.map')
    v, st, r = e.run(e.find_class('Dem'), [a], {}, st)
    rep.scenario(e, 'elevation of a PCRaster map')
    for what in ('values', 'mv'):
        band(rep, e, e.freeze(e.getattr(v, what, st), st), st, a, f'pcr:dem:{what}', what, what != 'mv')


def band(rep, e, n, st, path, key, what, values):
    P = 'pyg2p/main/readers/pcr.py'
    for c, l in leaves(n, st.g):
        m = l.args[0] if l.op == 'call' else None
        ok = m is not None and m.op == 'attr' and m.args[1] == ('ReadAsArray' if values else 'GetNoDataValue')
        bands = [y for y in walk(m.args[0]) if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'GetRasterBand'] if ok else []
        ok = ok and len(bands) == 1 and is_const(bands[0].args[1][0], 1) and any(y is path for y in walk(bands[0])) \
            and not any(y.op == 'op' and y.args[0] == 'path' and y is not path for y in walk(m.args[0]))
        if ok and values and l.args[1]:
            a = [show(x, 1).split('.')[-1] if not is_const(x) else x.args[0] for x in l.args[1]]
            ok = a == [0, 0, 'RasterXSize', 'RasterYSize']
        rep.ob(key, ok and not (values and l.args[2]), P, f'{what} of PCRaster maps are not {"the cells" if values else "the no-data value"} of their first band: {show(l, 5)}')


def pair(rep, overlay, *_):
    """one netCDF file holds both coordinates"""
    f = File('geographic', 'float')
    e = engine(overlay, f.hooks())
    st = e.state()
    a, b = N('op', 'path', const('lat')), N('op', 'path', const('lon'))
    e.decide = both(ends(a, '.nc'), lambda x: False if x.op == 'eq' and set(x.args[:2]) == {a, b} else None)
    v, st, r = e.run(e.find_class('LatLong'), [a, b], {}, st)
    rep.scenario(e, 'different netCDF maps for latitude and longitude')
    rep.ob('pair:refused', not st.g and r and all(code_of(o) == INVALID_METHOD for o in r), L, 'different netCDF maps for latitudes and longitudes are not refused with the documented error')

