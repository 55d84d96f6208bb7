"""Geometry and description of the output."""
from .nc import *

EXPLAIN = ('The PCRaster and netCDF executions are evaluated abstractly; dimensions, coordinate values and attributes of the netCDF file, and the dataset and nodata value of PCRaster maps '
           'are compared with the settings and maps they must come from.')
RULE = ('netCDF: variable named after the prefix over (time, lat, lon), time unlimited, lat/lon as long as rows/columns of the clone map, coordinate values from a column of the latitude map and a row '
        'of the longitude map, description and unit of the parameter, CF names and units of coordinates; PCRaster: a copy of the clone map with its nodata value')
ASSUME = ['the target grid is regular: one row/column of the coordinate maps gives the axis']
CLONE, LAT, LON = cfg('outMaps.clone'), cfg('interpolation.latMap'), cfg('interpolation.lonMap')
MAPS = (CLONE, LAT, LON)


def kind(m, nc):
    """map m is a netCDF file or not; coordinate maps agree"""
    def d(a):
        if a.op == 'truth' and a.args[0].op == 'call' and a.args[0].args[0].op == 'attr' and a.args[0].args[0].args[1] == 'endswith' and \
                any(is_const(x, '.nc') for x in a.args[0].args[1]):
            who = a.args[0].args[0].args[0]
            if who in m:
                return nc
        if a.op == 'truth' and ext_of(a.args[0]) == 'isinstance':
            return None
        if a.op == 'eq' and LAT in a.args and LON in a.args:
            return True if nc else None
        if a.op == 'eq' and any(mentions(x, lambda z: z.op == 'attr' and z.args[1] == 'shape') for x in a.args):
            return True
        return None
    return d


def sources(n):
    """maps the cells of a value come from"""
    out, seen, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in MAPS:
            out.add(x)
        elif x.op == 'upd':
            st += [x.args[0], x.args[2]]
        else:
            st += children(x)
    return out


def check(rep, overlay=None):
    k = netcdf_run(rep, overlay)
    v = k.main[0]
    open_ = lambda a: None
    w = v.ev.where
    rep.ob('variable', v.name is cfg('outMaps.namePrefix'), w, 'the variable of the maps is not named after the prefix')
    rep.ob('dimensions', v.dimnames() == ['time', 'lat', 'lon'], w, 'the variable of the maps is not over time, lat, lon')
    for name, want in (('long_name', cfg('parameter.description')), ('units', cfg('parameter.conversionUnit')), ('standard_name', cfg('outMaps.namePrefix'))):
        ls = attr_leaves(v, name, open_)
        rep.ob(f'map:{name}', ls and B.OR(*[c for c, l, x in ls]) == 1 and all(strip_conv(l) is want for c, l, x in ls), w, f'{name} of the maps does not come from {want.args[1].args[0]}')
    # dimensions
    dims = {}
    for x in k.e.events:
        if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'createDimension' and x.args and is_const(x.args[0]):
            size = x.args[1] if len(x.args) > 1 else dict(x.kw).get('size', NONE)
            dims.setdefault(x.args[0].args[0], []).append((x.g, size, x))
    for name, axis in (('lat', 0), ('lon', 1)):
        for nc in (False, True):
            d = kind((CLONE, LAT, LON), nc)
            got = [(l, x) for g, s, x in dims.get(name, []) for c, l in restricted(s, d, g)]
            ok = bool(got) and all(shape_axis(l) in (axis, axis - 2) or (not nc and raster_size(l) == axis) or
                                   l.op == 'call' and ext_of(l) == 'len' and axis == 0 for l, x in got) and all(any(s is CLONE for s in sources(l)) for l, x in got)
            rep.ob(f'dimension:{name}', ok, got[0][1].where if got else w, f'dimension {name} is not as long as the {"rows" if axis == 0 else "columns"} of the clone map')
    t = dims.get('time', [])
    rep.ob('dimension:time', t and all(is_const(s, None) for g, s, x in t), t[0][2].where if t else w, 'dimension time is limited')
    # coordinates
    for name, own, other, std, units, axis, labels_ in (('lat', LAT, LON, 'latitude', 'degrees_north', 0, {'lat', 'y'}), ('lon', LON, LAT, 'longitude', 'degrees_east', 1, {'lon', 'x'})):
        vs = [c for c in k.vars if c.dimnames() == [name]]
        if not rep.ob(f'{name}:there', vs, w, f'no coordinate variable {name}'):
            continue
        c0 = vs[0]
        rep.ob(f'{name}:name', is_const(c0.name, name), c0.ev.where, f'the coordinate of dimension {name} is not a variable of this name')
        rep.ob(f'{name}:units', all(is_const(l, units) for c, l, x in attr_leaves(c0, 'units', open_)) and c0.attrs.get('units'), c0.ev.where, f'{name} is not in {units}')
        rep.ob(f'{name}:standard', c0.attrs.get('standard_name') and all(is_const(l) and str(l.args[0]).lower() == std for c, l, x in attr_leaves(c0, 'standard_name', open_)),
               c0.ev.where, f'{name} is not named {std}')
        rep.ob(f'{name}:stored', c0.stores and B.OR(*[B.restrict_map(g, kind(MAPS, False)) for g, *_ in c0.stores]) == 1, c0.ev.where, f'no values of {name} are stored')
        for nc in (False, True):
            d = kind(MAPS, nc)
            for g, idx, val, x, i in c0.stores:
                for c, l in restricted(val, d, g):
                    src = sources(l)
                    if nc:
                        labs = label_of(k, l)
                        rep.ob(f'{name}:nc', labs and labs <= labels_ and src & {LAT, LON} and CLONE not in src, x.where, f'{name} is not the {name} coordinate of the netCDF coordinate map')
                    else:
                        rep.ob(f'{name}:pcr', src == {own}, x.where, f'{name} is not taken from the {std} map')
                    from .p04 import moved
                    ms = moved(k.e, l, lambda y: 'map' if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'ReadAsArray' or y.op == 'attr' and y.args[1] == 'variables' else None)
                    ms += [s for s in walk(idx) if s.op == 'slice' and not is_const(s.args[2], None, 1)]
                    ms += [s for s in ([l.args[1]] if l.op == 'sub' and l.args[1].op == 'slice' else l.args[1].args[0] if l.op == 'sub' and l.args[1].op == 'tuple' else ())
                           if s.op == 'slice' and not (is_const(s.args[0], None, 0) and is_const(s.args[1], None))]
                    rep.ob(f'{name}:places', not ms, x.where, f'{name} has not the values of the map in their order')
                    if l.op == 'sub':
                        it = l.args[1]
                        ok = it.op == 'tuple' and len(it.args[0]) == 2 and it.args[0][axis].op == 'slice' and it.args[0][1 - axis].op == 'const' or \
                            axis == 1 and it.op == 'const'
                        rep.ob(f'{name}:line', ok, x.where, f'{name} is not one {"column" if axis == 0 else "row"} of the map')
    # PCRaster
    p = run_given(rep, overlay, None, ('pcraster',), {})[0]
    for g, val, x in p.vals:
        ds = [y for y in walk(x.fn) if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'CreateCopy']
        ok = ds and all(len(y.args[1]) > 1 and opened(y.args[1][1]) is CLONE for y in ds)
        rep.ob('pcraster:clone', ok, x.where, 'maps are not written into a copy of the clone map')
        rep.ob('pcraster:band', all(is_const(y.args[1][0], 1) for y in walk(x.fn) if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'GetRasterBand'), x.where, 'values are not written in the first band')
    nd = [x for x in p.e.events if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'SetNoDataValue']
    for x in nd:
        ok = all(l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] == 'GetNoDataValue' and sources(l) == {CLONE} for l in leafset(constrain(x.args[0], x.g)))
        rep.ob('pcraster:nodata', ok, x.where, 'the nodata value of maps is not the one of the clone map')


def shape_axis(l):
    if l.op == 'sub' and l.args[0].op == 'attr' and l.args[0].args[1] == 'shape' and is_const(l.args[1]):
        return l.args[1].args[0]
    return None


def raster_size(l):
    """0 for the number of rows, 1 for the number of columns of a raster"""
    if l.op == 'attr':
        return {'RasterYSize': 0, 'RasterXSize': 1}.get(l.args[1])
    return None


def opened(n):
    """map a dataset has been opened from"""
    s = {x for x in walk(n) if x in MAPS}
    return next(iter(s)) if n.op == 'call' and ext_of(n) == 'osgeo.gdal.Open' and len(s) == 1 else None


def label_of(k, l):
    """names of the netCDF variables a value is read from, except those used for their shape only"""
    out, seen, st = set(), set(), [l]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'attr' and n.args[1] in ('shape', 'size', 'dtype'):
            continue
        if n.op == 'sub' and n.args[0].op == 'attr' and n.args[0].args[1] == 'variables':
            for y in leafset(n.args[1]):
                out.add(y.args[0] if is_const(y) else None)
            continue
        st += children(n)
    return out
