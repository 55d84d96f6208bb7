"""Values, coordinates and cells keep their order from decoding to output."""
from .pipe import *
from . import tables, p04, p14, p25, p28, p22, p36, p37
from .p04 import moved
from .tables import MODES, LATS, LONS, V, GID, GRIB

EXPLAIN = ('Executions of the three kinds are evaluated abstractly with the steps of processing opaque, and reading, conversion, aggregation, interpolation in every mode and correction on their own; '
           'on the way of values, coordinates and cells, operations that put them in another order or leave some out are looked for, and the coordinates given to each interpolation are followed to the key they are decoded with.')
RULE = 'no value, coordinate or cell changes its place or is left out between decoding and output; latitudes are interpolated as latitudes, longitudes as longitudes'
ASSUME = ['eccodes, GDAL and netCDF4 give values and coordinates in one order', 'indexes of a table are those computed for it (P19, P30, P37)']
DECODE = {'eccodes.codes_get_double_array', 'eccodes.codes_get_array', 'eccodes.codes_get_values'}
KEYS = ('latitudes', 'longitudes', 'values', 'distinctLatitudes', 'distinctLongitudes')
TURNS = ('T', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis')
READ = 'pyg2p/main/readers/grib.py'


def check(rep, overlay=None):
    jobs = [('given', s, x) for s in SINKS for x in (None, 'file', 'input2')]
    jobs += [('read', h) for h in ('file', 'index')]
    jobs += [('mode', m, s) for m in MODES for s in ((False, True) if m in GRIB else (False,))]
    jobs += [('coordinates', 'nearest', r) for r in (False, True)]
    jobs += [('maps', f) for f in p36.FILES if f != 'none'] + [('maps', None), ('maps', 'two')]
    jobs += [('written', s) for s in SINKS]
    jobs += [('steps',), ('correction', False), ('correction', True)]
    rep.each(jobs, lambda r, a: globals()[a[0]](r, overlay, *a[1:]), width=6)


def decoded(y):
    """the key an array is decoded with"""
    if y.op == 'call' and ext_of(y) in DECODE:
        if ext_of(y).endswith('get_values'):
            return 'values'
        for c in y.args[1][1:] + tuple(v for _, v in y.args[2]):
            if is_const(c) and c.args[0] in KEYS:
                return c.args[0]
    return None


def left_out(e, n, about):
    """parts of an array taken instead of all of it"""
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if about(x) or x.op == 'op':
            continue
        if x.op == 'sub' and about(x.args[0]):
            ks = x.args[1].args[0] if x.args[1].op == 'tuple' else [x.args[1]]
            if any(k.op == 'slice' and not (is_const(k.args[0], None, 0) and is_const(k.args[1], None)) for k in ks):
                out.append(x)
        if x.op == 'mu':
            todo += [y for y in e.mus.get((x.args[0], x.args[1]), ()) if isinstance(y, Node)]
            continue
        todo += children(x)
    return out


def turns(x):
    return x.op == 'attr' or x.op == 'call' and (ext_of(x) or '').rsplit('.')[-1] in TURNS or x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in TURNS


def places(rep, e, key, what, n, about, where, below=True, turned=None):
    """turned: turned arrays count only when made of this (points of an entry may be turned against the entries)"""
    ms = [x for x in moved(e, n, about, below=below) for ls in [labels(e, x, about) - {'table'}] if ls and (not turned or not turns(x) or turned in ls)]
    ms += [x for x in left_out(e, n, about) if about(x.args[0]) != 'table']
    rep.ob(key, not ms, where, f'{what} {"are put in another order or left out" if ms else ""}: {show(ms[0], 3)[:140] if ms else ""}')


def given(rep, overlay, s, second):
    k = run_given(rep, overlay, second, (s,))[0]
    e = k.e
    name = {None: 'one resolution', 'file': 'two resolutions', 'input2': 'two files'}[second]
    ops = [y for y in e.events if y.kind == 'op' and ext_name(y.fn) == 'interpolate']
    rep.need(ops, f'{s}: nothing is interpolated')
    for y in ops:
        where = y.where
        for i, want in enumerate(('latitudes', 'longitudes')):
            got = labels(e, y.args[i], decoded)
            rep.ob(f'{s}/{name}:{want}', got == {want}, where, f'{s}: {want} of the source points are {", ".join(sorted(got)) or "not decoded from the message"}')
            places(rep, e, f'{s}/{name}:{want}/order', f'{s}: {want} of the source points', y.args[i], decoded, where)
        places(rep, e, f'{s}/{name}:field', f'{s}: values of the field', y.args[2], lambda x: 'values' if x.op in ('valof', 'sub') and mentions(x.args[1] if x.op == 'valof' else x.args[0], lambda z: z.op == 'param' and str(z.args[0]).startswith('values_')) else None, where)


def read(rep, overlay, handler):
    k = p22.reading(overlay, handler, {'dataDate'}, 'range')
    e = k.e
    rep.scenario(e, f'values read through the {handler}')
    rep.need(k.messages, 'no messages are built')
    n = 0
    for g, vs in k.messages:
        for v in vs:
            if 'values' in labels(e, v, decoded):
                n += 1
                places(rep, e, f'read/{handler}:values', 'values of a message', v, decoded, READ)
    rep.need(n, 'no values decoded')


def mode(rep, overlay, m, second):
    for gid in (-1, GID) if m in GRIB else (-1,):
        k = tables.interpolate(overlay, m, gid=gid, second=second)
        e = k.e
        rep.scenario(e, f'interpolation mode {m}')

        def about(y):
            if y in (LATS, LONS, V):
                return 'source'
            if y.op == 'sub' and (is_const(y.args[1]) and isinstance(y.args[1].args[0], str) or tables.is_id(y.args[1]) or mentions(y.args[1], lambda z: z is GID)):
                return 'table'
            if y.op == 'attr' and y.args[0].op == 'op' and y.args[0].args[0] == 'map':
                return 'target'
            if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[0].op == 'op' and y.args[0].args[0].args[0] == 'map':
                return 'target'
            if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[0].op == 'op' and y.args[0].args[0].args[0] == 'scipy' or y.op == 'call' and ext_of(y) == 'numpy.load' or y.op == 'op' and y.args[0] == 'computed':
                return 'table'
            return None
        for v, g in k.vals:
            places(rep, e, f'{m}:field', f'{m}: cells of the interpolated field', v, about, 'pyg2p/main/interpolation/__init__.py', below=False, turned='target')
        for y in e.events:
            if y.kind == 'new':
                continue
            for a in list(y.args) if y.kind == 'op' and ext_name(y.fn) == 'compute' else []:
                places(rep, e, f'{m}:given', f'{m}: what tables are computed from', a, about, y.where, below=False)
            if y.kind == 'op' and ext_name(y.fn) == 'compute':
                at = p14.roles(overlay, m[5:])
                for i, want in zip(at, ('latitude', 'longitude')):
                    got = labels(e, y.args[i], coordinate) - {'both'}
                    rep.ob(f'{m}:{want}s', got == {want}, y.where, f'{m}: {want}s of the target cells are {", ".join(sorted(got)) or "not those of the maps"}')
        if m not in GRIB:
            at, first = roles(k), roles(tables.interpolate(overlay, 'nearest'))
            rep.need(at and first, f'{m}: the interpolation with scipy was not found')
            rep.ob(f'{m}:as nearest', at == first, 'pyg2p/main/interpolation/__init__.py', f'{m}: latitudes and longitudes are not given as in the nearest mode')
        for x in {z for v, g in k.vals for z in walk(v) if z.op == 'op' and z.args[0] == 'scipy'}:
            for a in x.args[1]:
                places(rep, e, f'{m}:given', f'{m}: what tables are computed from', a, about, 'pyg2p/main/interpolation/__init__.py', below=False)


def coordinate(y):
    """what the map was opened for"""
    if y.op == 'sub' and is_const(y.args[1], 0, 1) and y.args[0].op == 'call' and y.args[0].args[0].op == 'attr' and y.args[0].args[0].args[0].op == 'op' and y.args[0].args[0].args[0].args[0] == 'map':
        return 'both'         # one file with both
    if y.op == 'op' and y.args[0] == 'map':
        for z in walk(y.args[1]):
            n = str(cfg_of(z) or '')
            for w in ('latitude', 'longitude'):
                if n.endswith(w + 'Maps') or n.endswith(w[:3] + 'Map'):
                    return w
    return 'latitude' if y is LATS else 'longitude' if y is LONS else None


def cfg_of(z):
    if z.op == 'cfg':
        return z.args[1].args[0] if isinstance(z.args[1], Node) and is_const(z.args[1]) else z.args[1]
    return None


def roles(k):
    """what is given to the interpolation with scipy at each place"""
    out = set()
    for v, g in k.vals:
        for x in walk(v):
            if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[0].op == 'op' and x.args[0].args[0].args[0] == 'scipy':
                sides = [x.args[0].args[0].args[1], x.args[1]]
                out.add(tuple(tuple(tuple(sorted(labels(k.e, a, coordinate) - {'both'})) for a in side[:2]) for side in sides))
    return out


class Only:
    """a report of the places of points only"""

    def __init__(self, rep, keys):
        self.rep, self.keys = rep, keys

    def ob(self, key, ok, where, msg):
        if any(x in key for x in self.keys):
            self.rep.ob(key, ok, where, msg)

    def need(self, c, what):
        self.rep.need(c, what)

    def scenario(self, e, what):
        self.rep.scenario(e, what)


def coordinates(rep, overlay, m, rotated):
    p37.one(Only(rep, (':coordinates', ':source points', ':target cells')), overlay, m, rotated, False, False)


def maps(rep, overlay, kind):
    """coordinates of the target as stored in the maps"""
    r = Only(rep, (':lats', ':lons'))
    if kind is None:
        p36.pcr(r, overlay)
    elif kind == 'two':
        p36.pair(r, overlay)
    else:
        p36.coords(r, overlay, kind, 'float')


def written(rep, overlay, s):
    """cells as written or returned"""
    p04.sink(Only(rep, (':places',)), overlay, s, 'map')


def steps(rep, overlay):
    field = lambda y: 'values' if y.op in ('valof', 'sub') and mentions(y.args[1] if y.op == 'valof' else y.args[0], lambda z: z is N('param', 'values')) else None
    for kind in ('average', 'accumulation', 'instantaneous'):
        e, v = p28.run(overlay, kind)
        rep.scenario(e, kind)
        places(rep, e, f'{kind}:fields', f'{kind}: values of the fields', v, field, 'pyg2p/main/manipulation/aggregator.py')


def correction(rep, overlay, grib):
    e, v, st = p25.build(overlay, 'p+gem-dem', 'z/9.81', grib)
    rep.scenario(e, 'correction')
    where = 'pyg2p/main/manipulation/correction.py'
    about = lambda y: decoded(y) or ('field' if y is p25.FIELD else 'map' if y.op == 'attr' and y.args[0].op == 'op' and y.args[0].args[0] == 'map' else 'height' if y.op == 'op' and y.args[0] == 'interpolated' else 'values' if y.op == 'param' and str(y.args[0]).startswith('values_') else None)
    places(rep, e, f'correction:cells', 'correction: cells', v, about, where)
    ops = [y for y in e.events if y.kind == 'op' and ext_name(y.fn) == 'interpolated']
    rep.need(ops, 'no geopotential is interpolated')
    names = parameters(overlay)
    for y in ops:
        places(rep, e, 'correction:geopotential', 'correction: values of the geopotential', y.args[0], about, y.where)
        for n, a in y.kw or ():
            got = {x for x in labels(e, a, decoded)} & {'latitudes', 'longitudes'}
            if n in names and got:
                rep.ob(f'correction:{names[n]}', got == {names[n]}, y.where, f'correction: {names[n]} of the geopotential are {", ".join(sorted(got))}')
                places(rep, e, f'correction:{names[n]}/order', f'correction: {names[n]} of the geopotential', a, decoded, y.where)


def parameters(overlay):
    """the parameters for latitudes and longitudes, by the ones the field is interpolated with"""
    out = {}

    def inv(e, fi, selfn, args, kw, st):
        if fi.cls is not None and fi.cls.name == 'Interpolator' and fi.name in p25.ARRAYS:
            b = bindargs(e, fi, selfn, args, kw)
            for n, x in b.items():
                x = e.freeze(x, st)
                if x in (LATS, LONS):
                    out[n] = 'latitudes' if x is LATS else 'longitudes'
            if len(seen) > 0:
                return N('op', 'interpolated', V)
            seen.append(fi)
        return None
    seen = []
    e = engine(overlay, {'invoke': inv, 'instantiate': lambda e, ci, args, kw, st: N('op', 'map', args[0], const(ci.name)) if ci.name in ('PCRasterReader', 'NetCDFReader') and args else None}, forget=False)
    st = e.state()
    ctx = make_ctx(e, st, {'interpolation.mode': 'nearest'})
    it, st, r = e.run(e.find_class('Interpolator'), [ctx, N('param', 'mv')], {}, st)
    e.run(e.getattr(it, 'interpolate', st), [LATS, LONS, V, N('param', 'grid_id'), N('param', 'geodetic_info'), const(-1)], {'is_second_res': FALSE}, st)
    return out
