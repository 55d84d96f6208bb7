"""Order of the output by end step, numbering and names of the maps."""
from .pipe import *
from .texts import *

EXPLAIN = ('The container an output goes over is followed back to the sort that fills it, whose key function is evaluated on an open item; names of created files are brought to a '
           'normal form (sequence of settings, numbers as sums of products of settings and iteration position, padding with counts).')
RULE = ('fields are interpolated in the order of a mapping sorted ascending by end_step; the PCRaster file of the i-th field is '
        'outDir/(prefix, zeros up to 11 characters, fmap + (i-1)*ext) cut as 8.3; the netCDF file is outDir/prefix_aggregation.nc; the API returns a mapping in the order of end_step')
ASSUME = ['prefix and number have no more than 11 characters together']
C = cfg


def check(rep, overlay=None):
    for k in run(rep, overlay):
        e, F = k.e, Forms(k.e)
        evs = [x for x in e.events if x.kind == 'op' and x.fn.args[0] == 'interpolate']
        for x in evs:
            its = {}
            for y in walk(x.args[2]):
                if y.op in ('valof', 'elem'):
                    its[y.args[0]] = y.args[1]
            here = [its[L] for L in x.loops if L in its]
            rep.ob(f'{k.name}:order', here and end_step_order(F, here[0]), x.where, 'fields are not processed in the order of their end step')
        if k.name == 'pcraster':
            pcraster(rep, k, F, evs)
        elif k.name == 'netcdf':
            netcdf(rep, k, F)
        else:
            for c, l, _ in k.vals:
                for y in stores(e, l):
                    ks = leafset(y)
                    rep.ob('api:steps', not any(z.op in ('attr', 'lidx', 'const', 'fmt') or z.op == 'call' and ext_of(z) in ('int', 'str', 'float') for z in ks), 'pyg2p/main/api.py', f'the returned fields are not under their steps but {show(y, 3)[:80]}')
                rep.ob('api:returned', end_step_order(F, l), 'pyg2p/main/api.py', 'the returned mapping is not in the order of the end steps')


def stores(e, n):
    """keys interpolated fields are stored with in a mapping"""
    out, seen, todo = [], set(), [n]
    while todo:
        x = todo.pop()
        if x in seen or x.op == 'op':
            continue
        seen.add(x)
        if x.op == 'mu':
            todo += [y for y in e.mus.get(x.args, ()) if isinstance(y, Node)]
            continue
        if x.op == 'upd' and x.args[1].op != 'slice' and str(getattr(x.args[0], 'op', '')) in ('mu', 'empty', 'dictv', 'ite', 'upd') and labels(e, x.args[2], lambda y: 'field' if y.op == 'op' and y.args[0] == 'interpolate' else None) \
                and not labels(e, x.args[0], lambda y: 'field' if y.op == 'op' and y.args[0] == 'interpolate' else None) - {'field'} and holds(x.args[0]):
            out.append(x.args[1])
        todo += children(x)
    return out


def holds(n):
    """a mapping made in the execution"""
    return any(l.op in ('empty', 'dictv') or l.op == 'mu' and str(l.args[1]).startswith('@') for l in leafset(n))


def field_loop(e, n):
    """loop whose element is interpolated to give this value"""
    out = set()
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'op' and x.args[0] == 'interpolate':
            for y in walk(x.args[1][2]):
                if y.op in ('valof', 'elem'):
                    out.add(y.args[0])
            continue
        if x.op == 'mu':
            st += list(e.mus[x.args])
            continue
        st += children(x)
    return out


def pcraster(rep, k, F, evs):
    e = k.e
    made = [x for x in e.events if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'CreateCopy' and x.loops]
    rep.need(made, 'no PCRaster file is created for the fields')
    wrote = [(g, v, x) for g, v, x in k.vals]
    for x in made:
        name = x.args[0]
        drv = x.fn.args[0]
        rep.ob('pcraster:driver', drv.op == 'call' and any(is_const(a, 'PCRaster') for a in drv.args[1]), x.where, 'maps are not created with the PCRaster driver')
        # what is copied is what was written last
        w = [y for y in (z[2] for z in wrote) if e.events.index(y) < e.events.index(x) and y.loops == x.loops]
        ds = x.args[1]
        ok = bool(w) and all(any(y is ds for y in walk(z.fn)) for z in w) and any(B.implies(x.g, z.g) for z in w)
        rep.ob('pcraster:content', ok, x.where, 'the created map is not a copy of the dataset the field was written to')
        # the number belongs to the field
        L = set()
        for z in w:
            L |= field_loop(e, z.args[0])
        L = [l for l in x.loops if l in L]
        if not rep.ob('pcraster:iteration', L, x.where, 'a map is not created in the iteration of its field'):
            continue
        L = L[0]
        number = {(C('outMaps.fmap'),): 1}
        number = add(number, mul({(('K', L),): 1}, {(C('outMaps.ext'),): 1}))
        number = ('num', frozenset(number.items()))
        prefix = ('v', C('outMaps.namePrefix'))
        pad = add(num(11), F.plen((prefix, number)), -1)
        full = (prefix, ('rep', '0', frozenset(pad.items())), number)
        want_base = (('part', full, 0, 8), ('s', '.'), ('part', full, 8, 11))
        for l in leafset(constrain(name, x.g)):
            got = F.pieces(l)
            d, b = split_path(got)
            rep.ob('pcraster:dir', d == (('v', C('outMaps.outDir')),), x.where, 'maps are not written in the output folder')
            nums = [p for p in flat(b) if p[0] == 'num']
            rep.ob('pcraster:number', nums and all(p == number for p in nums), x.where, 'maps are not numbered from fmap on in steps of ext')
            rep.ob('pcraster:name', b == want_base or b == (('part', full, 0, 8), ('s', '.'), ('part', full, 8, None)), x.where,
                   'the file name is not prefix and number, padded with zeros to 11 characters, as 8.3')


def flat(ps):
    out = []
    for p in ps:
        if p[0] == 'part':
            out += flat(p[1])
        elif p[0] == 'path':
            out += flat(p[1]) + flat(p[2])
        else:
            out.append(p)
    return out


def split_path(ps):
    if len(ps) == 1 and ps[0][0] == 'path':
        return ps[0][1], ps[0][2]
    for i, p in enumerate(ps):
        if p[0] == 's' and p[1].startswith('/') and i > 0:
            rest = ((('s', p[1][1:]),) if p[1][1:] else ()) + tuple(ps[i + 1:])
            return tuple(ps[:i]), rest
    return None, ps


def netcdf(rep, k, F):
    e = k.e
    made = [x for x in e.events if x.kind == 'call' and (ext_name(x.fn) or '') == 'netCDF4.Dataset'
            and (len(x.args) > 1 or any(kk == 'mode' for kk, _ in x.kw))]
    made = [x for x in made if not is_const(x.args[1] if len(x.args) > 1 else dict(x.kw)['mode'], 'r')]
    rep.need(made, 'no netCDF file is created')
    for x in made:
        mode = x.args[1] if len(x.args) > 1 else dict(x.kw)['mode']
        rep.ob('netcdf:mode', is_const(mode, 'w'), x.where, 'the netCDF file is not created anew')
        for l in leafset(constrain(x.args[0], x.g)):
            d, b = split_path(F.pieces(l))
            rep.ob('netcdf:dir', d == (('v', C('outMaps.outDir')),), x.where, 'the netCDF file is not written in the output folder')
            rep.ob('netcdf:name', b == (('v', C('outMaps.namePrefix')), ('s', '_'), ('v', C('aggregation.type')), ('s', '.nc')), x.where,
                   'the netCDF file is not named prefix_aggregation.nc')
    # position in the file is the position in the list the fields are collected in
    for g, v, x in k.vals:
        key = x.args[1]
        t = key.args[0][0] if key.op in ('tuple', 'listv') and key.args[0] else key
        pt = F.poly(t)
        K = [m for m in pt if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'K']
        rep.ob('netcdf:position', len(K) == 1 and pt == {K[0]: 1}, x.where, 'fields are not stored one after the other from the first position')
        used = set()
        for y in leafset(constrain(v, x.g)):
            if y.op == 'sub':
                i = y.args[1]
                i = i.args[0][0] if i.op in ('tuple', 'listv') and i.args[0] else i
                used.add(i is t or same(F.poly(i), pt))
            elif y.op in ('elem', 'valof'):
                used.add(same({(('K', y.args[0]),): 1}, pt))
            elif t.op == 'slice':
                used.add(True)
        rep.ob('netcdf:index', used == {True}, x.where, 'the field stored at a position is not the one collected at that position')
        # collected by appending
        for y in e.events:
            if y.kind == 'call' and y.fn.op == 'attr' and y.fn.args[1] in ('insert', 'reverse', 'sort', 'appendleft') and field_loop(e, N('tuple', tuple(a for a in y.args if isinstance(a, Node)))):
                rep.ob('netcdf:collected', False, y.where, 'fields are not collected in their order')
