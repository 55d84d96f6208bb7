"""Packing of netCDF values: scale, offset, valid range, missing value, type."""
from .nc import *
from .ratio import *

EXPLAIN = ('The netCDF execution is evaluated abstractly; attributes of the variable holding the maps and the values replacing missing cells are brought to a normal form '
           '(rational function of the settings) and compared with the packing conventions of netCDF.')
RULE = ('scale_factor, add_offset: the settings; valid_min, valid_max: (setting - offset) / scale exactly when set, 0 included; type: the setting, f8 without; '
        'missing_value and fill value: the default fill value of the type; missing cells are given fill value * scale + offset; attributes before values, automatic scaling on')
ASSUME = ['netCDF4 packs stored values with scale_factor and add_offset when automatic scaling is on']
S, O, T = cfg('outMaps.scaleFactor'), cfg('outMaps.offset'), cfg('outMaps.valueFormat')


def given(key, yes, zero=False):
    k = cfg(key)

    def d(a):
        if a.op == 'isnone' and a.args[0] is k:
            return not yes
        if a.op == 'truth' and a.args[0] is k:
            return None if yes and zero else yes
        if a.op == 'eq' and k in a.args and any(is_const(x, None) for x in a.args):
            return not yes
        if a.op == 'isnone' and a.args[0] in (S, O):
            return False
        if a.op == 'eq' and any(mentions(x, lambda z: z.op == 'attr' and z.args[1] == 'shape') for x in a.args):
            return True
        return None
    return d


def filltype(l):
    """type whose default fill value this is"""
    if l.op == 'sub' and l.args[0].op in ('ext', 'attr') and 'default_fillvals' in show(l.args[0], 3):
        return l.args[1]
    return None


def check(rep, overlay=None):
    k = netcdf_run(rep, overlay)
    for v in k.main:
        w = v.ev.where
        stores = [i for g, idx, val, x, i in v.stores]
        rep.ob('values', bool(stores), w, 'nothing is stored in the variable of the maps')
        first = min(stores) if stores else 0
        for name, want in (('scale_factor', S), ('add_offset', O)):
            ls = attr_leaves(v, name, given('outMaps.validMin', True, True))
            rep.ob(f'{name}:set', B.OR(*[c for c, l, x in ls]) == 1, w, f'{name} is not always set')
            for c, l, x in ls:
                rep.ob(f'{name}:value', equal(ratio(l), of(want)), x.where, f'{name} is not the {want.args[1].args[0]} setting')
            rep.ob(f'{name}:before', all(i < first for g, val, x, i in v.attrs.get(name, [])), w, f'{name} is set after values have been stored')
        for name, key in (('valid_min', 'outMaps.validMin'), ('valid_max', 'outMaps.validMax')):
            ls = attr_leaves(v, name, given(key, True, True))
            rep.ob(f'{name}:set', B.OR(*[c for c, l, x in ls]) == 1, w, f'{name} is not set whenever {key} is (0 included)')
            want = over(plus(of(cfg(key)), of(O), -1), of(S))
            for c, l, x in ls:
                rep.ob(f'{name}:value', equal(ratio(l), want), x.where, f'{name} is not the packed {key}')
            ls = [(c, l, x) for c, l, x in attr_leaves(v, name, given(key, False))]
            rep.ob(f'{name}:unset', not ls, ls[0][2].where if ls else w, f'{name} is set without {key}')
        for yes in (True, False):
            d = given('outMaps.valueFormat', yes)
            for c, l in restricted(v.type, d, v.ev.g):
                rep.ob('type', l is T if yes else is_const(l, 'f8'), w, 'values are not stored with the type of the setting' if yes else 'values are not stored as f8 without setting')
            right = lambda l, d=d: filltype(l) is not None and all(z is T if yes else is_const(z, 'f8') for c, z in restricted(filltype(l), d))
            rep.ob('fill', v.fill is not None and all(right(l) for c, l in restricted(v.fill, d)), w, 'the fill value is not the default one of the type')
            ls = attr_leaves(v, 'missing_value', d)
            rep.ob('missing_value', ls and all(right(l) for c, l, x in ls), w, 'missing_value is not the default fill value of the type')
            # values that replace missing cells
            reps = []
            for g, idx, val, x, i in v.stores:
                for n in replacements(k.e, val):
                    reps.append((n, x))
            rep.ob('missing', bool(reps), w, 'missing cells are not replaced before values are stored')
            for n, x in reps:
                for c, l in restricted(n, d):
                    num_, den = ratio(l)
                    # the fill value inside may be gated: decide it first
                    atoms_ = {m for mono in list(num_) + list(den) for m in mono}
                    fills = {m for m in atoms_ if m not in (S, O)}
                    ok = len(fills) == 1 and right(next(iter(fills)))
                    if ok:
                        f = next(iter(fills))
                        ok = equal((num_, den), plus(times(of(f), of(S)), of(O)))
                    rep.ob('missing:packed', ok, x.where, 'missing cells are not given the value that packs to the fill value')
        for m, x, i in v.calls:
            if m in ('set_auto_maskandscale', 'set_auto_scale') and x.args and is_const(x.args[0], False, None, 0) and i < first:
                later = [y for n2, y, j in v.calls if n2 in ('set_auto_maskandscale', 'set_auto_scale') and i < j < first and not is_const(y.args[0], False, None, 0) and y.g == 1]
                rep.ob('scaling', bool(later), x.where, 'automatic packing of values is switched off')


def replacements(e, val):
    """values put in cells on the way from interpolation to the file"""
    out, seen, st = [], set(), [val]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'op':
            continue
        if n.op == 'call' and (ext_of(n) in ('numpy.ma.filled',) or n.args[0].op == 'attr' and n.args[0].args[1] == 'filled'):
            a = list(n.args[1])
            if ext_of(n):
                a = a[1:]
            f = a[0] if a else dict(n.args[2]).get('fill_value')
            if f is not None and f.op != 'nan':
                out.append(f)
        if n.op == 'upd':
            c, v = n.args[1], n.args[2]
            if mentions(c, lambda z: z.op == 'call' and ext_of(z) == 'numpy.isnan' or z.op == 'call' and 'isnan' in show(z.args[0], 2)):
                out.append(v)
        if n.op == 'call' and ext_of(n) in ('numpy.where', 'numpy.ma.where') and len(n.args[1]) == 3 and mentions(n.args[1][0], lambda z: z.op == 'call' and ext_of(z) == 'numpy.isnan'):
            out.append(n.args[1][1])
        if n.op == 'call' and ext_of(n) == 'numpy.nan_to_num':
            out.append(dict(n.args[2]).get('nan', const(0)))
        if n.op == 'mu':
            st += list(e.mus[n.args])
            continue
        st += children(n)
    return out
