"""Settings taken from the execution template (or the dictionary given to the API) and their defaults."""
from .common import *

# attribute path below Execution, setting, kind, default; path of the API dictionary is the same without '@'
#   kind: 'raw' value as is, 'int' converted to a number (0 is a value), 'num' as is, 0 is a value, 'pos' a number where 0 means not given
TABLE = [
    (('Parameter', '@shortName'), 'parameter.shortName', 'raw', ...),
    (('Parameter', '@tstart'), 'parameter.tstart', 'int', None),
    (('Parameter', '@tend'), 'parameter.tend', 'int', None),
    (('Parameter', '@dataTime'), 'parameter.dataTime', 'int', None),
    (('Parameter', '@dataDate'), 'parameter.dataDate', 'int', None),
    (('Parameter', '@perturbationNumber'), 'parameter.perturbationNumber', 'int', None),
    (('Parameter', '@level'), 'parameter.level', 'int', None),
    (('Parameter', '@applyConversion'), 'parameter.conversionId', 'raw', None),
    (('OutMaps', '@cloneMap'), 'outMaps.clone', 'path', ...),
    (('OutMaps', '@unitTime'), 'outMaps.unitTime', 'int', 24),
    (('OutMaps', '@fmap'), 'outMaps.fmap', 'pos', 1),
    (('OutMaps', '@ext'), 'outMaps.ext', 'pos', 1),
    (('OutMaps', '@namePrefix'), 'outMaps.namePrefix', 'raw', ('Parameter', '@shortName')),
    (('OutMaps', '@scaleFactor'), 'outMaps.scaleFactor', 'raw', 1),
    (('OutMaps', '@offset'), 'outMaps.offset', 'raw', 0),
    (('OutMaps', '@validMin'), 'outMaps.validMin', 'num', None),
    (('OutMaps', '@validMax'), 'outMaps.validMax', 'num', None),
    (('OutMaps', '@valueFormat'), 'outMaps.valueFormat', 'raw', None),
    (('OutMaps', '@outputStepUnits'), 'outMaps.outputStepUnits', 'raw', None),
    (('OutMaps', 'Interpolation', '@mode'), 'interpolation.mode', 'raw', 'grib_nearest'),
    (('OutMaps', 'Interpolation', '@latMap'), 'interpolation.latMap', 'path', ...),
    (('OutMaps', 'Interpolation', '@lonMap'), 'interpolation.lonMap', 'path', ...),
    (('OutMaps', 'Interpolation', '@cdd_map'), 'interpolation.cdd_map', 'path', ''),
    (('OutMaps', 'Interpolation', '@cdd_mode'), 'interpolation.cdd_mode', 'raw', ''),
    (('OutMaps', 'Interpolation', '@cdd_options'), 'interpolation.cdd_options', 'raw', None),
    (('OutMaps', 'Interpolation', '@use_broadcasting'), 'interpolation.use_broadcasting', 'raw', False),
    (('OutMaps', 'Interpolation', '@num_of_splits'), 'interpolation.num_of_splits', 'raw', None),
    (('OutMaps', 'Interpolation', '@rotated_target'), 'interpolation.rotated_target', 'raw', False),
    (('Aggregation', '@step'), 'aggregation.step', 'raw', None),
    (('Aggregation', '@type'), 'aggregation.type', 'raw', None),
]

# settings that switch a part of the processing on: (assumed, setting, expected)
P, O, A = ('Parameter',), ('OutMaps',), ('Aggregation',)
SWITCHES = [
    ({P + ('@applyConversion',): True}, 'execution.doConversion', True),
    ({P + ('@applyConversion',): False}, 'execution.doConversion', False),
    ({A + ('@step',): True, A + ('@type',): True}, 'execution.doAggregation', True),
    ({A: False}, 'execution.doAggregation', False),
    ({A + ('@step',): False, A + ('@type',): True}, 'execution.doAggregation', False),
    ({A + ('@halfweights',): True}, 'aggregation.halfweights', True),
    ({A: True, A + ('@halfweights',): False}, 'aggregation.halfweights', False),
    ({A + ('@type',): 'accumulation', A + ('@forceZeroArray',): 'True'}, 'aggregation.forceZeroArray', True),
    ({A + ('@type',): 'accumulation', A + ('@forceZeroArray',): 'y'}, 'aggregation.forceZeroArray', True),
    ({A + ('@type',): 'accumulation', A + ('@forceZeroArray',): 'False'}, 'aggregation.forceZeroArray', False),
    ({A + ('@type',): 'accumulation', A + ('@forceZeroArray',): 'no'}, 'aggregation.forceZeroArray', False),
    ({A + ('@type',): 'accumulation', A + ('@forceZeroArray',): False}, 'aggregation.forceZeroArray', False),
    ({A + ('@type',): 'average', A + ('@forceZeroArray',): 'True'}, 'aggregation.forceZeroArray', False),
    ({P + ('@correctionFormula',): True, P + ('@gem',): True, P + ('@demMap',): True}, 'execution.doCorrection', True),
    ({P + ('@correctionFormula',): False, P + ('@gem',): False, P + ('@demMap',): False}, 'execution.doCorrection', False),
    ({P + ('@correctionFormula',): False, P + ('@gem',): True, P + ('@demMap',): True}, 'execution.doCorrection', False),
    ({P + ('@correctionFormula',): True, P + ('@gem',): False, P + ('@demMap',): True}, 'execution.doCorrection', False),
    ({P + ('@correctionFormula',): True, P + ('@gem',): True, P + ('@demMap',): False}, 'execution.doCorrection', False),
    ({A + ('@step',): True, A + ('@type',): False}, 'execution.doAggregation', False),
]
CORRECTION = {P + ('@correctionFormula',): 'correction.formula', P + ('@gem',): 'correction.gemFormula', P + ('@demMap',): 'correction.demMap'}


def same_number(a, b):
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return False


def is_true(l):
    if l.op == 'bool':
        return l.args[0] == 1
    return is_const(l) and bool(l.args[0])


def is_false(l):
    if l.op == 'bool':
        return l.args[0] == 0
    return is_const(l) and not l.args[0]


def resolved(l):
    """value below the replacement of {VARIABLES} of a path"""
    while l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] in ('format', 'format_map'):
        l = l.args[0].args[0]
    return l


def check_value(rep, tag, e, ctx, st, pathof, path, key, kind, default, allpath):
    v = setting(e, ctx, key, st)
    name = '/'.join(path)
    f = Facts(pathof, {allpath(path): True}, zero=kind in ('int', 'num'))
    n = 0
    for c, l in restricted(v, f, st.g):
        n += 1
        x = resolved(l) if kind == 'path' else strip_conv(l)
        rep.ob(f'{tag}{name}->{key}', pathof(x) == allpath(path), 'execution context',
               f'with {name} given, {key} can be {show(l, 6)} when {showb(c, 5)[:300]}')
    rep.ob(f'{tag}{name}->{key}:reached', n > 0, 'execution context', f'with {name} given no execution gets through')
    if default is ...:
        return
    f = Facts(pathof, {allpath(path): False})
    for c, l in restricted(v, f, st.g):
        l = f.value(strip_conv(resolved(l) if kind == 'path' else l))
        if isinstance(default, tuple):
            ok = pathof(l) == allpath(default)
            want = '/'.join(default)
        elif default is None or isinstance(default, bool) or default == '':
            ok = (is_const(l) and l.args[0] == default) or (default is False and is_false(l)) or (not default and is_const(l, None))
            want = default
        elif isinstance(default, (int, float)):
            ok = is_const(l) and same_number(l.args[0], default)
            want = default
        else:
            ok = is_const(l, default)
            want = default
        rep.ob(f'{tag}{name}-default', ok, 'execution context', f'without {name}, {key} can be {show(l, 6)} instead of {want} when {showb(c, 5)[:300]}')


def check_switches(rep, tag, e, ctx, st, pathof, allpath):
    for facts, key, want in SWITCHES:
        f = Facts(pathof, {allpath(p): v for p, v in facts.items()})
        what = ', '.join(f"{'/'.join(p)}={'given' if v is True else 'missing' if v is False else v}" for p, v in facts.items())
        v = setting(e, ctx, key, st)
        for c, l in restricted(v, f, st.g):
            if l.op == 'bool':
                b = B.restrict_map(l.args[0], f)
                b = B.AND(b, c) if B.AND(b, c) == 0 or B.implies(c, b) else b
                good = B.implies(c, b) if want else B.AND(c, b) == 0
            else:
                l = f.value(l)
                good = is_true(l) if want else is_false(l)
            rep.ob(f'{tag}{key}={want}[{what}]', good, 'execution context', f'with {what}, {key} can be {show(l, 6)} when {showb(c, 5)[:300]}')
    f = Facts(pathof, {allpath(p): True for p in CORRECTION})
    for p, key in CORRECTION.items():
        for c, l in restricted(setting(e, ctx, key, st), f, st.g):
            rep.ob(f"{tag}{'/'.join(p)}->{key}", pathof(resolved(l)) == allpath(p), 'execution context', f'with a correction configured, {key} can be {show(l, 6)}')


def check_conversion(rep, tag, e, ctx, st, pathof, allpath):
    """the conversion used is the one of the parameter with the requested id"""
    want = {'parameter.conversionFunction': '@function', 'parameter.conversionUnit': '@unit', 'parameter.cutoffnegative': '@cutOffNegative'}
    f = Facts(pathof, {allpath(('Parameter', '@applyConversion')): True})

    def item(n):
        """attribute of a conversion entry: ('name', entry)"""
        if n.op == 'sub' and is_const(n.args[1]):
            return n.args[1].args[0], n.args[0]
        if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'get' and n.args[1] and is_const(n.args[1][0]):
            return n.args[1][0].args[0], n.args[0].args[0]
        return None, None

    def entry_of_parameter(n):
        """the entry is (one of) parameter['Conversion'] of the parameter named by shortName in the parameters configuration"""
        if n.op == 'elem':
            n = n.args[1]
        a, p = item(n)
        if a != 'Conversion':
            return False
        if p.op == 'call' and p.args[0].op == 'attr' and p.args[0].args[1] == 'get':
            k = p.args[1][0]
        elif p.op == 'sub':
            k = p.args[1]
        else:
            return False
        return pathof(k) == allpath(('Parameter', '@shortName'))

    for key, attr in want.items():
        v = setting(e, ctx, key, st)
        for c, l in restricted(v, f, st.g):
            if l.op == 'bool':
                # yes/no reading of the attribute: every condition reads the same attribute of the entry
                atoms = [a for a in B.support(l.args[0])]
                its = [item(y) for a in atoms for x in a.args if isinstance(x, Node) for y in walk(x)]
                got = [(a, p) for a, p in its if a == attr and entry_of_parameter(p)]
                ok = bool(got)
                rep.ob(f'{tag}conversion->{key}', ok, 'execution context', f'{key} does not depend on {attr} of the conversion: {show(l, 6)}')
                continue
            a, p = item(strip_conv(l))
            if key == 'parameter.cutoffnegative' and is_const(l):
                continue
            rep.ob(f'{tag}conversion->{key}', a == attr and entry_of_parameter(p), 'execution context',
                   f'{key} can be {show(l, 6)} when {showb(c, 5)[:200]}')
            if a == attr and entry_of_parameter(p):
                # the entry has the requested id
                # a conversion entry is taken only if its id is the requested one
                req = allpath(('Parameter', '@applyConversion'))
                fixed = False
                for atom_ in B.support(c):
                    if atom_.op == 'eq':
                        xs = list(atom_.args)
                        if any(pathof(x) == req for x in xs) and any(item(x)[0] == '@id' and item(x)[1] is p for x in xs):
                            if B.implies(c, B.var(atom_)):
                                fixed = True
                rep.ob(f'{tag}conversion-id->{key}', fixed, 'execution context', f'{key} can come from a conversion with another id: {showb(c, 6)[:300]}')
