"""The API request and the command line lead to the same settings."""
from .attrs import *

EXPLAIN = ('The API context is evaluated abstractly on an arbitrary request dictionary. Every key has to reach the setting its template counterpart '
           'reaches on the command line (same table as P35), keys at the top level win over the nested ones as options win over the template, '
           'and missing keys get the same defaults as a missing attribute.')
RULE = 'request key given => setting is its value; missing => same default as the command line'
ASSUME = ['request values are not empty strings']

# top level request key -> (setting, overridden nested key or None, 0 is a value)
TOP = {
    'inputFile': ('input.file', None, False), 'inputFile2': ('input.file2', None, False), 'start': ('parameter.tstart', ('Parameter', 'tstart'), True),
    'end': ('parameter.tend', ('Parameter', 'tend'), True), 'dataTime': ('parameter.dataTime', ('Parameter', 'dataTime'), True),
    'dataDate': ('parameter.dataDate', ('Parameter', 'dataDate'), True),
    'perturbationNumber': ('parameter.perturbationNumber', ('Parameter', 'perturbationNumber'), True),
    'fmap': ('outMaps.fmap', ('OutMaps', 'fmap'), True), 'ext': ('outMaps.ext', ('OutMaps', 'ext'), True),
    'namePrefix': ('outMaps.namePrefix', ('OutMaps', 'namePrefix'), False), 'scaleFactor': ('outMaps.scaleFactor', ('OutMaps', 'scaleFactor'), False),
    'offset': ('outMaps.offset', ('OutMaps', 'offset'), True), 'validMin': ('outMaps.validMin', ('OutMaps', 'validMin'), True),
    'validMax': ('outMaps.validMax', ('OutMaps', 'validMax'), True), 'valueFormat': ('outMaps.valueFormat', ('OutMaps', 'valueFormat'), False),
    'outputStepUnits': ('outMaps.outputStepUnits', ('OutMaps', 'outputStepUnits'), False), 'loggerLevel': ('logger.level', None, False),
    'intertableDir': (('interpolation.dirs', 'user'), None, False), 'geopotentialDir': (('geopotential.dirs', 'user'), None, False),
    'createIntertable': ('interpolation.create', None, True), 'interpolationParallel': ('interpolation.parallel', None, True),
}
# what is used when a key is given nowhere
DEFAULTS = {'inputFile2': False, 'createIntertable': False, 'perturbationNumber': (None,), 'start': (None,), 'end': (None,), 'dataTime': (None,), 'dataDate': (None,),
            'loggerLevel': ('INFO',), 'validMin': (None,), 'validMax': (None,), 'valueFormat': (None, 'f8'), 'outputStepUnits': (None,), 'fmap': (1, '1'), 'ext': (1, '1')}


def api_context(overlay=None, forget=True):
    e = engine(overlay, forget=forget)
    st = e.state()
    v, st, r = e.run(e.find_class('ApiContext'), [N('param', 'params')], {}, st)
    return e, v, st, r


def check(rep, overlay=None):
    e, ctx, st, r = api_context(overlay)
    rep.scenario(e, 'API context over an arbitrary request')
    full = lambda p: tuple(k.lstrip('@') for k in p)

    for path, key, kind, default in TABLE:
        # counterpart at the top level not given
        top = {('start' if k[-1] == 'tstart' else 'end' if k[-1] == 'tend' else k[-1],): False for k in [full(path)]}
        top = {k: v for k, v in top.items() if k[0] in TOP}
        # not a configuration command
        top.update({(k,): False for k in CONFIG_OPTS})

        def pathof(n):
            return apipath(n)
        v = setting(e, ctx, key, st)
        name = '/'.join(full(path))
        n = 0
        f = Facts(pathof, {full(path): True, **top}, zero=kind == 'int')
        for c, l in restricted(v, f, st.g):
            n += 1
            x = resolved(l) if kind == 'path' else strip_conv(l)
            rep.ob(f'{name}->{key}', pathof(x) == full(path), 'API context', f'with {name} given, {key} can be {show(l, 6)} when {showb(c, 5)[:300]}')
        rep.ob(f'{name}->{key}:reached', n > 0, 'API context', f'with {name} given no request gets through')
        if default is ...:
            continue
        f = Facts(pathof, {full(path): False, **top})
        for c, l in restricted(v, f, st.g):
            l = f.value(strip_conv(resolved(l) if kind == "path" else l))
            if isinstance(default, tuple):
                ok = pathof(l) == full(default)
            elif default is None or isinstance(default, bool) or default == '':
                ok = (is_const(l) and l.args[0] == default) or (default is False and is_false(l)) or (not default and is_const(l, None))
            elif isinstance(default, (int, float)):
                ok = is_const(l) and same_number(l.args[0], default)
            else:
                ok = is_const(l, default)
            rep.ob(f'{name}-default', ok, 'API context', f'without {name}, {key} can be {show(l, 6)} instead of {default} when {showb(c, 5)[:300]}')
    for k, (key, nested, zero) in TOP.items():
        facts = {(k,): True}
        if nested:
            facts[nested] = True
        f = Facts(apipath, facts, zero=zero)
        name = key if isinstance(key, str) else '/'.join(key)
        n = 0
        for c, l in restricted(setting(e, ctx, key, st), f, st.g):
            n += 1
            rep.ob(f'{k}->{name}', apipath(strip_conv(l)) == (k,), 'API context', f'with {k} given, {name} can be {show(l, 6)} when {showb(c, 5)[:300]}')
        rep.ob(f'{k}->{name}:reached', n > 0, 'API context', f'with {k} given no request gets through')
    # neither here nor in the nested parts
    for k, (key, nested, zero) in TOP.items():
        if k not in DEFAULTS:
            continue
        f = Facts(apipath, {(k,): False, **({nested: False} if nested else {})})
        for c, l in restricted(setting(e, ctx, key, st), f, st.g):
            l = f.value(strip_conv(l))
            want = DEFAULTS[k]
            ok = is_false(l) or is_const(l, None) if want is False else is_const(l, *want)
            rep.ob(f'{k}-missing', ok, 'API context', f'without {k}, {key} can be {show(l, 6)} when {showb(c, 5)[:300]}')
    check_switches(rep, '', e, ctx, st, apipath, full)
    for facts, want in (({('inputFile2',): True}, True), ({('inputFile2',): False}, False)):
        f = Facts(apipath, facts)
        for c, l in restricted(setting(e, ctx, 'input.two_resolution', st), f, st.g):
            b = B.restrict_map(l.args[0], f) if l.op == 'bool' else None
            ok = (b == (1 if want else 0)) if b is not None else (is_true(l) if want else is_false(l))
            rep.ob(f'two-resolutions={want}', ok, 'API context', f'second input file {"given" if want else "missing"}: two resolutions is {show(l, 5)}')
    e, ctx, st, r = api_context(overlay, forget=False)
    rep.scenario(e, 'API context over an arbitrary request, rejected requests excluded')
    check_conversion(rep, '', e, ctx, st, apipath, full)
