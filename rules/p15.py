"""What an interpolation table is registered under."""
import re
from .tables import *

EXPLAIN = ('The identities of source grids and target maps are evaluated for open GRIB messages and map files and decomposed into their parts; one interpolation is evaluated in every mode: the identity that is '
           'looked up, the one that is registered, the file name in the registry and the file that is saved are compared, and the names of other registered tables are excluded for new files.')
RULE = 'identity made of every part, in separated positions; registered under the identity looked up, with the name of the saved file; a new file never has a registered name'
ASSUME = ['file names and identities contain no separators of their own']
GRID = {'grid type': ('gridType',), 'number of values': ('numberOfValues', 'numberOfDataPoints'), 'columns': ('Ni', 'Nx'), 'rows': ('Nj', 'Ny'),
        'first longitude': ('longitudeOfFirstGridPointInDegrees', 'longitudeOfFirstGridPoint'), 'last longitude': ('longitudeOfLastGridPointInDegrees', 'longitudeOfLastGridPoint'),
        'latitudes': ('latitudeOfFirstGridPointInDegrees', 'latitudeOfLastGridPointInDegrees', 'latitudeOfFirstGridPoint', 'latitudeOfLastGridPoint')}


def pieces(n):
    """constant and other pieces of a text, in order"""
    if n.op == 'fmt':
        return [q for p in n.args[0] for q in pieces(p)]
    if n.op == 'bin' and n.args[0] == '+':
        return pieces(n.args[1]) + pieces(n.args[2])
    return [n]


def digits(y):
    f = str(y.args[1].args[0]) if isinstance(y.args[1], Node) and is_const(y.args[1]) else str(y.args[1])
    m = re.match(r'\.(\d+)f$', f)
    return int(m.group(1)) if m else 0


def asked_keys(n):
    """GRIB keys whose values reach a text (not merely conditions)"""
    out = set()
    for l in [x for c, x in leaves(n, 1)]:
        for x in walk(l):
            if x.op == 'call' and ext_of(x).startswith('eccodes.codes_get') and len(x.args[1]) > 1 and is_const(x.args[1][1]):
                out.add(x.args[1][1].args[0])
    return out


def check(rep, overlay=None):
    rep.each([('grid',), ('maps',)] + [('mode', m, s) for m in MODES for s in ((False, True) if m in GRIB else (False,))] + [('again', m) for m in MODES], lambda r, it: globals()[it[0]](r, overlay, *it[1:]))
    texts = {}
    for key, ok, where, msg in list(rep.obs):
        if key.startswith('suffix|'):
            texts[key.split('|')[1]] = msg
    rep.obs = [o for o in rep.obs if not o[0].startswith('suffix|')]
    for a in sorted(texts):
        for b in sorted(texts):
            if a != b:
                rep.ob(f'modes[{a}:{b}]', not texts[a].endswith(texts[b]), 'Interpolator', f'the tables of the modes {a} and {b} of one grid and target have the same identity')


def grid(rep, overlay):
    e = engine(overlay, {}, forget=False)
    st = e.state()
    o, st, r = e.run(e.find_class('GribGridDetails'), [N('param', 'message')], {}, st)
    v = e.freeze(e.getattr(o, 'grid_id', st), st)
    rep.scenario(e, 'identity of a source grid')
    for c, l in leaves(v, st.g):
        if l.op == 'unk' or is_const(l):
            rep.need(False, 'the identity of a grid cannot be followed')
        ps = pieces(l)
        for a, b in zip(ps, ps[1:]):
            if not is_const(a) and not is_const(b):
                rep.ob('grid:separated', False, 'GribGridDetails', 'two parts of the identity of a grid follow each other without separator')
        rep.ob('grid:separated', True, 'GribGridDetails', '')
        for name, keys in GRID.items():
            hit = [p for p in ps if asked_keys(p) & set(keys)]
            rep.ob(f'grid:{name}', bool(hit), 'GribGridDetails.grid_id', f'the {name} of a grid {"are" if name.endswith("s") and name != "columns" else "is"} not part of its identity')
            for p in hit:
                rep.ob(f'grid:{name}:alone', asked_keys(p) <= set(keys), 'GribGridDetails.grid_id', f'the {name} of a grid is mixed with another part of its identity')
                for y in walk(p):
                    if y.op == 'fspec':
                        rep.ob(f'grid:{name}:digits', digits(y) >= 3, 'GribGridDetails.grid_id', f'the {name} of a grid is part of its identity with few digits only')


def maps(rep, overlay):
    for cn in ('PCRasterReader', 'NetCDFReader'):
        e = engine(overlay, {}, forget=False)
        st = e.state()
        o, st, r = e.run(e.find_class(cn), [N('param', 'file')], {}, st)
        v, st, r = e.run(e.getattr(o, 'identifier', st), [], {}, st)
        v = e.freeze(v, st)
        rep.scenario(e, f'identity of a target map ({cn})')
        fn = f'{cn}.identifier'
        for c, l in leaves(v, st.g):
            rep.need(l.op != 'unk', f'{fn} cannot be followed')
            ps = pieces(l)
            for a, b in zip(ps, ps[1:]):
                if not is_const(a) and not is_const(b):
                    rep.ob(f'{cn}:separated', False, fn, 'two parts of the identity of a map follow each other without separator')
            seen = set()
            for p in ps:
                for x in walk(p):
                    seen.add(what(x, e, st))
            if cn == 'PCRasterReader':
                want = {'origin x': ('t', 0), 'origin y': ('t', 3), 'cell width': ('t', 1), 'cell height': ('t', 5), 'smallest value': ('call', 'GetMinimum'), 'largest value': ('call', 'GetMaximum')}
            else:
                want = {'smallest latitude': ('lat', 'min'), 'largest latitude': ('lat', 'max'), 'smallest longitude': ('lon', 'min'), 'largest longitude': ('lon', 'max'),
                        'cell height': ('lat', 'step'), 'cell width': ('lon', 'step')}
            alt = {('call', 'GetMinimum'): {('t', 'min'), ('call', 'ComputeRasterMinMax'), ('call', 'ComputeStatistics'), ('call', 'min')}, ('call', 'GetMaximum'): {('t', 'max'), ('call', 'ComputeRasterMinMax'), ('call', 'ComputeStatistics'), ('call', 'max')}}
            for name, k in want.items():
                rep.ob(f'{cn}:{name}', k in seen or bool(alt.get(k, set()) & seen), fn, f'the {name} of a map is not part of its identity')
            for p in ps:
                cut = any(ext_of(x) in ('int', 'round', 'math.floor', 'math.trunc') for x in walk(p) if x.op == 'call') or any(x.op == 'fspec' and digits(x) < 4 for x in walk(p))
                rep.ob('maps:precision', not (cut and any(what(x, e, st) for x in walk(p))), fn, 'coordinates of the target are rounded or cut in the identity of a table')
            size = any(x.op == 'attr' and x.args[1] in ('RasterXSize', 'RasterYSize', 'shape', 'size') for p in ps for x in walk(p))
            rep.ob('maps:shape', size, fn, 'the number of rows and columns of the target is not part of the identity of a table')


def what(x, e, st):
    if x.op == 'sub' and is_const(x.args[1]) and x.args[0].op == 'call' and x.args[0].args[0].op == 'attr' and x.args[0].args[0].args[1] == 'GetGeoTransform':
        return ('t', x.args[1].args[0])
    if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('GetMinimum', 'GetMaximum', 'ComputeRasterMinMax', 'ComputeStatistics'):
        return ('call', x.args[0].args[1])
    kind = None
    if x.op == 'call' and (x.args[0].op == 'attr' and x.args[0].args[1] in ('min', 'max') or ext_of(x) in ('numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax', 'numpy.ma.min', 'numpy.ma.max')):
        name = x.args[0].args[1] if x.args[0].op == 'attr' else ext_of(x)
        kind, over = ('min' if 'min' in name else 'max'), (x.args[0].args[0] if x.args[0].op == 'attr' else x.args[1][0])
    elif x.op == 'bin' and x.args[0] == '-':
        kind, over = 'step', x
    if kind:
        names = {l.args[0] for y in walk(over) if y.op == 'sub' for l in leafset(y.args[1]) if is_const(l) and isinstance(l.args[0], str)}
        for axis, ks in (('lat', {'lat', 'y'}), ('lon', {'lon', 'x'})):
            if names & ks and not names & ({'lat', 'y', 'lon', 'x'} - ks):
                return (axis, kind)
    return None


def mode(rep, overlay, mode, second):
    k = interpolate(overlay, mode, gid=N('param', 'gid') if mode in GRIB else -1, second=second)
    tag = f'{mode}{":second" if second else ""}'
    rep.scenario(k.e, tag)
    fn = 'Interpolator.interpolate'
    free = Place(**OPEN).on(k)
    # identity looked up
    ids = set()
    for x in k.e.events[k.n1:]:
        for a in atoms(x.g):
            if a.op == 'in' and is_id(a.args[0]) and not dirkey(a.args[0]) and mentions(a.args[1], lambda y: y.op == 'ext' and y.args[0].startswith('json.')):
                ids.add(a.args[0])
            elif a.op in ('truth', 'isnone') and is_id(a) and a.args[0].op == 'call' and a.args[0].args[0].op == 'attr' and a.args[0].args[0].args[1] == 'get':
                ids.add(a.args[0].args[1][0])
    if any(l.op == 'fmt' for i in ids for l in leafset(i)):
        ids = {i for i in ids if all(l.op != 'mu' for l in leafset(i))}
    if not ids:
        other = [a for x in k.e.events[k.n1:] for a in atoms(x.g) if a.op == 'in' and not is_const(a.args[0]) and mentions(a.args[1], lambda y: y.op == 'ext' and y.args[0].startswith('json.'))]
        rep.need(other, f'{mode}: no identity is looked up')
        rep.ob(f'{tag}:grid', False, fn, f'{mode}: the identity of a table does not contain the identity of the grid')
        return
    base = {frozenset((c, l) for c, l in leaves(i, 1)) for i in ids}
    rep.ob(f'{tag}:one', len(base) == 1, fn, f'{mode}: several different identities are looked up')
    ident = sorted(ids, key=lambda n: n.id if hasattr(n, 'id') else 0)[0]
    for c, l in leaves(ident, 1):
        ps = pieces(l)
        grid_at = [i for i, p in enumerate(ps) if is_id(p)]
        rep.ob(f'{tag}:grid', len(grid_at) == 1 and all(y is GID or not mentions(y, lambda z: z is GID) or fair(y) for y in walk(ps[grid_at[0]])), fn, f'{mode}: the identity of a table does not contain the identity of the grid unchanged')
        maps_ = [ctxkey for ctxkey in ('interpolation.latMap', 'interpolation.lonMap') if any(mentions(p, lambda y: y.op == 'op' and y.args[0] == 'map' and cfg_key(y.args[1]) == ctxkey) and mentions(p, lambda y: y.op == 'attr' and y.args[1] == 'identifier') for p in ps)]
        net = any(mentions(p, lambda y: y.op == 'op' and y.args[0] == 'map' and is_const(y.args[2], 'NetCDFReader')) for p in ps)
        rep.ob(f'{tag}:target', len(maps_) == 2 or maps_ and (net and not any(mentions(p, lambda y: y.op == 'op' and y.args[0] == 'map' and is_const(y.args[2], 'PCRasterReader')) for p in ps)), fn, f'{mode}: the identity of a table does not contain the identity of both coordinate maps')
        for a, b in zip(ps, ps[1:]):
            if not is_const(a) and not is_const(b) and (is_id(a) or is_id(b)):
                rep.ob(f'{tag}:separated', False, fn, f'{mode}: grid and target follow each other without separator in the identity of a table')
        t = str(ps[-1].args[0]) if is_const(ps[-1]) else ''
        rep.ob(f'suffix|{mode}', True, '', t)
        rep.ob(f'{tag}:method', bool(t.strip('_')), fn, f'{mode}: the identity of a table does not name the method')
    # registered under the same identity with the name of the file
    made = 0
    for state in states():
        if state['registered'] and state['there']:
            continue
        w = Place(**{**OPEN, **state, 'user': True, 'create': True, 'defined': True, 'folder': True, 'write': True, 'cached': False}).on(k)
        saved = {}
        for l, x, m in opened(k, w):
            if m == 'w' and not registry(l):
                saved[l] = B.OR(saved.get(l, 0), B.OR(*[c for c, y in restricted(x.args[0], w, x.g) if y is l]))
        for x in k.e.events[k.n1:]:
            if x.kind == 'call' and ext_name(x.fn) in ('json.dumps', 'json.dump') and B.restrict_map(x.g, w):
                for c, l in restricted(x.args[0], w, x.g):
                    y, found = l, []
                    while y.op in ('upd', 'dupdate'):
                        if y.op == 'upd' and any(is_id(z) for z in leafset(y.args[1])) or y.op == 'upd':
                            found.append((y.args[1], y.args[2]))
                        y = y.args[0]
                    made += 1
                    hits = [d for key, d in found if same(key, ident, w)]
                    rep.ob(f'{tag}:registered', bool(hits), x.where, f'{mode}: the table is not registered under the identity that is looked up')
                    for d in hits:
                        f = field(d, 'filename')
                        rep.ob(f'{tag}:named', f is not None, x.where, f'{mode}: the registry does not name the file of the table')
                        for c1, z in restricted(f, w) if f is not None else ():
                            for s, c2 in saved.items():
                                if B.AND(c1, c2):
                                    rep.ob(f'{tag}:name', named(z, s, w), x.where, f'{mode}: the name in the registry is not the one of the saved file: {show(z, 4)[:80]}')
    rep.need(made, f'{mode}: no registration of a table was found')
    # names of other tables
    w = Place(**{**OPEN, 'registered': False, 'there': (), 'user': True, 'create': True, 'defined': True, 'folder': True, 'write': True, 'cached': False, 'named_gz': True}).on(k)

    def taken(a):
        if mentions(a, lambda y: is_const(y, 'filename')) and mentions(a, lambda y: y.op == 'ext' and y.args[0].startswith('json.')) and mentions(a, lambda y: cfg_key(y) == 'input.file' or y.op == 'mu') \
                and a.op in ('in', 'eq', 'truth') and not (a.op == 'truth' and ext_of(a.args[0]).startswith('os.path')) and not is_id(a.args[0]):
            return True
        return w(a)
    taken.e = k.e
    for l, x, m in opened(k, w):
        if m == 'w' and not registry(l) and (w.path(l) or ('', ''))[1] == 'new':
            g = B.restrict_map(x.g, taken)
            for L in {y.args[0] for y in walk(l) if y.op in ('mu', 'elem', 'lidx')}:
                if L not in x.loops:
                    g = B.AND(g, B.restrict_map(k.e.loopinfo.get(L, {}).get('exit', 1), taken))
            rep.ob(f'{tag}:taken', g == 0, x.where, f'{mode}: a new table can get the name of the registered table of another grid')


def again(rep, overlay, mode):
    """the next message of the same execution finds the table"""
    w = Place(**{**OPEN, 'there': (), 'user': True, 'create': True, 'defined': True, 'folder': True, 'write': True, 'nc': False, 'new_exists': False, 'taken': False})
    k = interpolate(overlay, mode, gid=N('param', 'gid') if mode in GRIB else -1, calls=2, world=w)
    rep.scenario(k.e, f'{mode}: two messages')
    looked, later = 0, set()
    for x in k.e.events[k.n1:]:
        for a in atoms(x.g):
            if a.op == 'in' and is_id(a.args[0]) and not dirkey(a.args[0]):
                if x.seq <= k.marks[1]:
                    looked += 1
                elif a not in later:
                    later.add(a)
    if not looked:
        return  # reported for the single message
    rep.need(later, f'{mode}: no lookup in the registry was found')
    ok = False
    for a in later:
        y = a.args[1]
        while y.op in ('upd', 'dupdate', 'ite'):
            if y.op == 'upd' and set(leafset(y.args[1])) & set(leafset(a.args[0])):
                ok = True
            y = y.args[0] if y.op != 'ite' else y.args[1]
    rep.ob(f'{mode}:again', ok, 'Interpolator.interpolate', f'{mode}: a new table is not found by the next lookup of the same execution')


def fair(y):
    """a transformation of the grid's identity that keeps different ones apart"""
    return y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'replace' and len(y.args[1]) == 2 and is_const(y.args[1][1]) and y.args[1][1].args[0] != '' or y.op == 'attr' or y.op in ('fmt', 'tuple')


def same(a, b, w):
    la, lb = {l for _, l in restricted(a, w)}, {l for _, l in restricted(b, w)}
    return bool(la & lb)


def field(d, name):
    for l in leafset(d):
        if l.op == 'dictv':
            for key, v in l.args[0]:
                if key == name or isinstance(key, Node) and is_const(key, name):
                    return v
        if l.op == 'upd' and is_const(l.args[1], name):
            return l.args[2]
    return None


def named(z, saved, w):
    """z is the last component of the saved path"""
    if mentions(z, lambda y: y.op == 'call' and ext_of(y) in ('os.path.basename', 'os.path.split', 'ntpath.basename', 'pathlib.Path') and y.args[1] and saved in {l for _, l in restricted(y.args[1][0], w)}):
        return True
    s = strip_path(saved)
    return s.op == 'call' and ext_of(s) == 'os.path.join' and z in {l for _, l in restricted(s.args[1][-1], w)}
