"""Order of the processing steps between the GRIB fields and the maps."""
import itertools

from .pipe import *

EXPLAIN = ('The three executions (PCRaster, netCDF, API) are evaluated abstractly with the processing steps as opaque operations; the value that is written '
           'or returned is walked back to the fields read from GRIB, for every combination of the switches, collecting the sequences of steps passed.')
RULE = 'every walk from a written or returned map to a GRIB field passes exactly the configured steps, once each, in the documented order'
ASSUME = ['the steps themselves are decided by other properties (P01, P02, P03, P25)']
SW = {'conversion': 'execution.doConversion', 'aggregation': 'execution.doAggregation', 'cut-off': 'parameter.cutoffnegative', 'correction': 'execution.doCorrection'}


def deciding(facts):
    m = {cfg(k): v for k, v in facts.items()}

    def d(a):
        if a.op == 'truth' and a.args[0] in m:
            return m[a.args[0]]
        if a.op == 'isnone' and a.args[0] in m:
            return False
        if a.op == 'eq':
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if x in m and is_const(y) and isinstance(y.args[0], bool):
                    return m[x] == y.args[0]
        return None
    return d


def expected(conv, agg, cut, corr):
    s = ['interpolate']
    if corr:
        s.insert(0, 'correct')
    if conv and cut:
        s.append('cut off')
    if agg:
        s.append('aggregate')
    if conv:
        s.append('convert')
    return tuple(s)


def check(rep, overlay=None):
    boxes = {}
    for k in run(rep, overlay):
        for conv, agg, cut, corr in itertools.product((False, True), repeat=4):
            d = deciding(dict(zip(SW.values(), (conv, agg, cut, corr))))
            want = expected(conv, agg, cut, corr)
            on = [n for n, v in zip(SW, (conv, agg, cut, corr)) if v] or ['nothing']
            got = {}
            for c, v, x in k.vals:
                if B.restrict_map(c, d) == 0:
                    continue
                for s, b in Walk(k.e, d).go(v).out.items():
                    got.setdefault(s, set()).update(b)
            where = next((x.where for c, v, x in k.vals if x is not None), 'value returned by the API')
            wrong = sorted(s for s in got if s != want)
            rep.ob(f"{k.name}[{'+'.join(on)}]", want in got and not wrong, where,
                   f"with {', '.join(on)} configured a map passes {' <- '.join(wrong[0]) if wrong else 'nothing'} instead of {' <- '.join(want)} (last step first)")
            boxes[(k.name, conv, agg, cut, corr)] = got.get(want, set())
        # without aggregation the fields of both resolutions are there, whatever else is configured
        full = max((len(b) for kk, b in boxes.items() if kk[0] == k.name), default=0)
        for kk, b in boxes.items():
            if kk[0] == k.name and not kk[2]:
                rep.ob(f"{k.name}-fields[{'+'.join(n for n, v in zip(SW, kk[1:]) if v) or 'nothing'}]", len(b) == full, 'execution',
                       f'fields of {len(b)} instead of {full} containers of the reader are processed')
