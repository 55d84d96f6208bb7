"""Correction for altitude, cell by cell."""
from .cells import *
from .pipe import *

EXPLAIN = ('Corrector is built and applied abstractly to an arbitrary interpolated field, with the elevation map, the geopotential message and the interpolation as arbitrary arrays; the result is then evaluated for '
           'one cell in each combination of states (masked, holding the missing value of its source, of the interpolation or of the correction, a value) of the field, the elevation and the geopotential.')
RULE = ('corrected cell = correction formula(field, elevation, resampled gem) when all three are there, missing otherwise; gem = geopotential formula(geopotential), interpolated with the grid of the geopotential; '
        'cells without geopotential are not computed from')
ASSUME = ['values of cells that are not missing differ from the missing values']
W = 'pyg2p/main/manipulation/correction.py'
FORMULAS = [('p+gem-dem*0.0065', '(z/9.81)*0.0065'), ('p+(gem-dem)*0.0065', 'z/9.81'), ('p/gem*dem', 'z+1')]
P, DEM, Z, GEM = N('param', 'value'), N('param', 'elevation'), N('param', 'geopotential'), N('param', 'resampled')
FIELD, ZS = N('param', 'field'), N('param', 'values_a')
ARRAYS = ('interpolate_grib', 'interpolate_scipy', 'interpolate')


def build(overlay, formula, gem, grib):
    def new(e, ci, args, kw, st):
        if ci.name in ('PCRasterReader', 'NetCDFReader') and args:
            return N('op', 'map', args[0], const(ci.name))
        return None

    def interp(e, fi, selfn, args, kw, st):
        if fi.cls is not None and fi.cls.name == 'Interpolator' and fi.name in ARRAYS:
            b = bindargs(e, fi, selfn, args, kw)
            n = N('op', 'interpolated', e.freeze(b['v'], st))
            e.emit('op', st, N('ext', 'interpolated'), (e.freeze(b['v'], st),), tuple((k, e.freeze(v, st)) for k, v in b.items() if k != 'v'), node=n)
            return n
        if fi.cls is not None and (fi.cls.name, fi.name) in stubs:
            return stubs[(fi.cls.name, fi.name)](e, fi, selfn, args, kw, st)
        return None
    stubs = reader_stubs(None)
    e = engine(overlay, {'invoke': interp, 'instantiate': new})
    st = e.state()
    ctx = make_ctx(e, st, {'correction.formula': formula, 'correction.gemFormula': gem, 'interpolation.mode': 'grib_nearest' if grib else 'nearest'})
    c, st, r = e.run(e.getattr(e.find_class('Corrector'), 'get_instance', st), [ctx, N('param', 'grid_id')], {}, st)
    v, st, r2 = e.run(e.getattr(c, 'correct', st), [FIELD], {}, st)
    return e, e.freeze(v, st), st


def is_z(n):
    return n.op == 'sub' and n.args[0] is ZS or n.op in ('valof', 'elem') and len(n.args) > 1 and mentions(n.args[1], lambda x: x is ZS)


def check(rep, overlay=None):
    try:
        for formula, gem in FORMULAS:
            for grib in (False, True):
                one(rep, overlay, formula, gem, grib)
    except Unknown as x:
        rep.need(False, str(x))


def one(rep, overlay, formula, gem, grib):
    e, v, st = build(overlay, formula, gem, grib)
    rep.scenario(e, f'{formula} with gem {gem}, {"GRIB" if grib else "scipy"} interpolation')
    bad = [x for x in e.events if x.kind in ('ne_syntax', 'ne_unbound', 'ne_maybe_unbound') and x.g]
    rep.ob('names', not bad, bad[0].where if bad else W, 'a formula cannot be evaluated')
    ops = [x for x in e.events if x.kind == 'op' and x.fn is N('ext', 'interpolated')]
    rep.need(ops, 'the geopotential is interpolated')
    mvg = N('param', 'mv_a')
    for x in ops:
        grid = dict(x.kw).get('grid_id')
        rep.ob('gem:grid', grid is N('param', 'grid_id'), x.where, 'the geopotential is interpolated with the table of another grid')
    # the array which is interpolated
    want = expected(gem, {'z': Z})
    for name, masked, val in (('masked', True, mvg), ('missing value', False, mvg), ('value', False, Z)):
        for arr in (True, False):
            if masked and not arr:
                continue
            for x in ops:
                cell = Cells(e, World(lambda n: (masked, val) if is_z(n) else None, {}, lambda n: arr if is_z(n) else None))
                for m, t in cell(x.args[0]):
                    if masked:
                        rep.ob('gem:masked', m or t is mvg or t is NAN, x.where, 'a missing cell of the geopotential is interpolated as a value')
                    elif name == 'missing value':
                        rep.ob('gem:missing', m or t is mvg or t is NAN, x.where, 'the missing value of the geopotential is converted as a value')
                    else:
                        rep.ob('gem:formula', not m and t is not NAN and equal(cell.asratio(t), want), x.where, f'the geopotential is not converted with {gem}')
    result(rep, e, v, st, formula, ops)


def is_map(n, key):
    return n.op == 'op' and n.args[0] == 'map' and cfg(key) in leafset(n.args[1])


def is_fill(n, of):
    """default fill value of the type of an array"""
    return n.op == 'sub' and mentions(n.args[0], lambda x: x.op == 'ext' and x.args[0].endswith('default_fillvals')) and mentions(n.args[1], of)


def expected(text, names):
    import ast as A
    t = A.parse(text, mode='eval').body

    def go(n):
        if isinstance(n, A.Name):
            return of(names[n.id])
        if isinstance(n, A.Constant):
            return num(n.value), num(1)
        if isinstance(n, A.UnaryOp):
            return plus((num(0), num(1)), go(n.operand), -1)
        a, b = go(n.left), go(n.right)
        return {'Add': lambda: plus(a, b), 'Sub': lambda: plus(a, b, -1), 'Mult': lambda: times(a, b), 'Div': lambda: over(a, b)}[type(n.op).__name__]()
    return go(t)


def result(rep, e, v, st, formula, ops):
    interp = {x.node for x in ops}
    mvs = {n for n in walk(v) if is_fill(n, lambda x: x is FIELD)}
    want = expected(formula, {'p': P, 'dem': DEM, 'gem': GEM})
    for nc in (False, True):
        dems = {n for n in walk(v) if n.op == 'attr' and n.args[1] == 'mv' and is_map(n.args[0], 'correction.demMap') and is_const(n.args[0].args[2], 'NetCDFReader' if nc else 'PCRasterReader')}
        outs = {n for n in walk(v) if (is_fill(n, lambda x: is_map(x, 'interpolation.latMap')) if nc else n.op == 'attr' and n.args[1] == 'mv' and is_map(n.args[0], 'interpolation.latMap'))}

        def scalar(a):
            if a.op == 'truth' and a.args[0].op == 'call' and a.args[0].args[0].op == 'attr' and a.args[0].args[0].args[1] == 'endswith':
                return nc
            if a.op == 'eq' and any(cfg('interpolation.latMap') in leafset(x) for x in a.args):
                return True
            if a.op == 'in':
                return False
            return None
        ps = [('masked', True, P), ('value', False, P)] + [('missing value of the type', False, n) for n in mvs] + [('missing value of the target grid', False, n) for n in outs]
        gs = [('masked', True, GEM), ('value', False, GEM), ('missing value of the message', False, N('param', 'mv_a'))] + [('missing value of the target grid', False, n) for n in outs]
        ds = [('value', False, DEM)] + [('missing value of the map', False, n) for n in dems]
        if not outs:
            # a cell the interpolation leaves empty is never told from a value
            ps.append(('missing value of the target grid', False, N('param', 'missing value of the target grid')))
            gs.append(('missing value of the target grid', False, N('param', 'missing value of the target grid')))
        if not dems:
            ds.append(('missing value of the map', False, N('param', 'missing value of the map')))
        missing = mvs | outs | {N('param', 'missing value of the target grid'), N('param', 'missing value of the map'), N('param', 'mv_a')}
        for pn, pm, pv in ps:
            for gn, gm, gv in gs:
                for dn, dm, dv in ds:
                    for pa in (True, False):
                        for ga in (True, False):
                            if pm and not pa or gm and not ga:
                                continue

                            def src(n):
                                if n is FIELD:
                                    return pm, pv
                                if n in interp:
                                    return gm, gv
                                if n.op == 'attr' and n.args[1] == 'values' and is_map(n.args[0], 'correction.demMap'):
                                    return dm, dv
                                return None
                            cell = Cells(e, World(src, {}, lambda n: pa if n is FIELD else ga if n in interp else None, scalar))
                            valid = pn == gn == dn == 'value'
                            for l in cell.possible(v):
                                if mentions_cache(l):
                                    continue
                                for m, t in cell(l):
                                    if valid:
                                        rep.ob('formula', not m and t is not NAN and not t in missing and equal(cell.asratio(t), want), W, f'a cell with value, elevation and geopotential is not corrected with {formula}')
                                    else:
                                        what = f'field: {pn}; geopotential: {gn}; elevation: {dn}'
                                        rep.ob(f'missing:{pn if pn != "value" else ""}:{gn if gn != "value" else ""}:{dn if dn != "value" else ""}', m or t is NAN or t in outs, W,
                                               f'a cell is not missing after the correction although something it needs is ({what})')


def mentions_cache(l):
    """the corrector of an earlier field"""
    return l.op == 'call' and l.args[0].op == 'attr' and mentions(l.args[0].args[0], lambda x: x.op == 'clsvar')
