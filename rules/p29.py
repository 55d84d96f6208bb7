"""Every name, attribute, argument and setting the program uses is defined."""
import ast
import importlib
import sa.core as core
from sa.flow import constants, functions, unbound, undefined_globals
from sa.names import Names, sources
from sa.report import Report
from . import tables
from .pipe import *
from .p08 import api_context
from . import common, p08
import sa.scen as scen

EXPLAIN = ('All modules of the package are parsed. Local names: path-sensitive definite assignment for every function. Names of modules, imports, members of classes, '
           'parameters of calls and fields of formatted texts: resolved over the syntax trees. Attributes and arguments of values: operations on values without the '
           'attribute or with the wrong arguments met by the abstract evaluations of all properties. Settings: each key an execution reads has a definition in both contexts.')
RULE = ('no read of a local name on a path that does not assign it; no name, import, member, argument or format field without definition; '
        'no operation that fails on the values reaching it; every setting read is defined from the command line and from the API')
ASSUME = ['loops run at least once', 'an exception leaves a try block at its begin or at its end']
KINDS = {'unbound': 'name without value', 'maybe_unbound': 'name without value', 'attrerr': 'attribute that does not exist',
         'attrerr_maybe': 'attribute that does not exist', 'typeerr': 'wrong arguments or operands'}
SOURCES = 'p01 p02 p05 p06 p07 p08 p09 p10 p16 p20 p21 p23 p24 p25 p27 p28 p31 p34 p35 p37 p38 p17'.split()


class Events(Report):
    """a report of another rule, of which only the failing operations are kept"""

    def ob(self, key, ok, where='', msg=''):
        return ok

    def scenario(self, e, what):
        super().scenario(e, what)
        for k, w, m in failing(e):
            super().ob(k, False, w, m)


def failing(e):
    out = {}
    for x in e.events:
        if x.kind not in KINDS:
            continue
        g, t = x.g, x.extra
        if isinstance(t, tuple):
            g, t = B.AND(g, t[1]), t[0]
        if g:
            k = f'{KINDS[x.kind].replace(" ", "-")}:{str(t)[:80]}'
            out.setdefault(k, (k, where(x), f'{KINDS[x.kind]}: {str(t)[:100]} when {showb(g)[:200]}'))
    return list(out.values())


def where(x):
    return str(x.where or x.loc)


def check(rep, overlay=None):
    text(rep, overlay)
    rep.each(['command', 'netcdf', 'api'] + SOURCES, lambda r, it: evaluated(r, overlay, it), width=8)
    rep.each(['settings'], lambda r, it: settings(r, overlay))
    rep.each([(w, x) for w in ('command', 'api') for x in EXTRA], lambda r, it: whole(r, overlay, *it), width=8)


BASE = (('Parameter', 'shortName'), ('OutMaps', 'cloneMap'), ('OutMaps', 'Interpolation', 'mode'), ('OutMaps', 'Interpolation', 'latMap'),
        ('OutMaps', 'Interpolation', 'lonMap'))
AGG, CONV, INT, OUT, COR = ('Aggregation',), ('Parameter', 'applyConversion'), ('OutMaps', 'Interpolation'), ('OutMaps',), ('Parameter', 'correctionFormula')
ATTRS = tuple(('Parameter', x) for x in ('demMap', 'gem'))
EXTRA = ((), (AGG,), (CONV,), (INT,), (OUT,), (AGG, CONV), (COR,) + ATTRS, (AGG, INT), (('Parameter', 'level'),), (('Parameter', 'tstart'), ('Parameter', 'tend'), AGG),
         (('Parameter', 'dataTime'), ('Parameter', 'dataDate'), ('Parameter', 'perturbationNumber')))
OPTIONS = CONFIG_OPTS + tuple('outDir start end perturbationNumber dataTime dataDate fmap format ext namePrefix offset scaleFactor validMax validMin '
                              'valueFormat outputStepUnits intertableDir geopotentialDir inputFile2'.split())


def given(pathof, has):
    """decides what the template or request has: the paths, what is on the way to them and what is below them"""
    def there(p):
        return any(p[:len(x)] == x or x[:len(p)] == p for x in has)

    def d(a):
        if a.op not in ('truth', 'isnone', 'eq', 'in', 'isinst', 'exc_in'):
            return None
        if a.op == 'in' and is_const(a.args[0]) and isinstance(a.args[1], Node) and pathof(a.args[1]) is not None:
            return there(pathof(a.args[1]) + (a.args[0].args[0],))
        ps = [pathof(x) if isinstance(x, Node) else None for x in a.args]
        p = next((q for q in ps if q is not None), None)
        if p is None:
            return None
        if a.op == 'truth':
            return there(p)
        if a.op == 'isnone':
            return not there(p)
        if a.op == 'eq':
            o = [x for x, q in zip(a.args, ps) if q is None]
            if o and is_const(o[0]) and o[0].args[0] in (None, ''):
                return not there(p)
        return None
    return d


def whole(rep, overlay, entry, extra):
    """context and execution on it, for one set of attributes given"""
    stub, real = Stub(STUBS), scen.engine
    if entry == 'command':
        has = [('Execution',) + p[:-1] + ('@' + p[-1] if p[-1][0].islower() else p[-1],) for p in BASE + extra]
        dec = given(common.jsonpath, has)
    else:
        dec = given(common.apipath, BASE + extra + (('inputFile',),))

    def make(*a, **k):
        e = real(*a, **k)
        e.decide = dec
        return e
    for m in (scen, common, p08):
        m.engine = make
    try:
        if entry == 'command':
            e, ctx, st, r = cli_context(overlay, given=('commandsFile', 'inputFile'), absent=OPTIONS, forget=False, hooks={'invoke': stub})
        else:
            e, ctx, st, r = api_context(overlay, forget=False)
            e.hooks['invoke'] = stub
    finally:
        for m in (scen, common, p08):
            m.engine = real
    n = len(e.events)
    e.forget = True
    tag = f'{entry} with {" ".join(".".join(p) for p in extra) or "nothing else"}'
    rep.need(st.g, f'{tag}: no context can be made')
    c, st, r = e.run(e.find_class('Controller' if entry == 'command' else 'Pyg2pApi'), [ctx], {}, st)
    e.run(e.getattr(c, 'execute', st), [], {}, st)
    rep.scenario(e, tag)
    rep.ob(f'{tag}:runs', True)
    for x in e.events[n:]:
        if x.kind == 'keyerr' and not x.trys:
            rep.ob(f'key:{show(x.args[1], 3)}', False, x.where, f'{show(x.args[1], 3)} is read from a dictionary without it, {tag}')
    for k, w, m in failing(e):
        rep.ob(k, False, w, f'{m}, {tag}')


def evaluated(rep, overlay, what):
    if what == 'command':
        e = run_controller(overlay, {'outMaps.format': 'pcraster'}, stubs=STUBS)[0]
    elif what == 'netcdf':
        e = run_controller(overlay, {'outMaps.format': 'netcdf'}, stubs=STUBS)[0]
    elif what == 'api':
        e = run_api(overlay, {}, stubs=STUBS)[0]
    else:
        sub = Events(what.upper(), 'quick')
        try:
            importlib.import_module('rules.' + what).check(sub, overlay)
        except Exception as ex:
            if type(ex).__name__ != 'AnalysisError':
                raise
        rep.obs += sub.obs
        rep.scenarios += [f'{what.upper()}: {s}' for s in sub.scenarios]
        rep.files |= sub.files
        rep.funcs |= sub.funcs
        rep.calls += sub.calls
        rep.ob(f'evaluated:{what}', True)
        return
    rep.scenario(e, what)
    for k, w, m in failing(e):
        rep.ob(k, False, w, m)
    rep.ob(f'evaluated:{what}', True)


def text(rep, overlay):
    src = sources('/repo/src', overlay)
    rep.need(len(src) > 10, 'the package has no modules')
    names = Names('/repo/src', src)
    for path, line, kind, ok, msg in names.check():
        rep.ob(f'{kind}:{path}:{msg}' if not ok else f'{kind}:{path}', ok, f'{path}:{line}', msg)
    for m in names.mods.values():
        consts = constants(m.tree)
        rep.files.add(m.path)
        for line, fn, name in undefined_globals(m.tree, m.path):
            rep.ob(f'global:{m.path}:{name}', False, f'{m.path}:{line} {fn}', f'{name} is read and defined nowhere')
        for qual, fn in functions(m.tree):
            found, uses = unbound(fn, m.path, consts)
            rep.ob(f'locals:{m.path}:{qual}', True)
            rep.notes['reads of names'] = rep.notes.get('reads of names', 0) + uses
            for k, (line, g, pg) in found.items():
                rep.ob(f'locals:{m.path}:{qual}:{k[0]}', False, f'{m.path}:{line} {qual}', f'{k[0]} is read on a path that gives it no value ({showb(g)[:150]})')


def keys_read():
    return {n.args[1].args[0] for n in core._table.values() if n.op == 'cfg' and n.args[1].op == 'const' and isinstance(n.args[1].args[0], str)}


def reads(rep, overlay, what):
    try:
        if what in ('pcraster', 'netcdf'):
            rep.scenario(run_controller(overlay, {'outMaps.format': what}, stubs=STUBS)[0], what)
        else:
            rep.scenario(tables.interpolate(overlay, what).e, what)
    except AnalysisError:       # what was read until then is known
        pass
    for k in keys_read():
        rep.ob(k, True)


def settings(rep, overlay):
    sub = Report(rep.pid, rep.tier)
    sub.each(['pcraster', 'netcdf', 'grib_nearest', 'adw'], lambda r, it: reads(r, overlay, it))
    rep.scenarios += [f'settings read, {x}' for x in sub.scenarios]
    read = {k for k, *_ in sub.obs}
    rep.need(len(read) > 20, 'no settings are read')
    e, ctx, st, r = cli_context(overlay, given=('commandsFile', 'inputFile'))
    for k in sorted(read):
        v = setting(e, ctx, k, st)
        rep.ob(f'setting:command:{k}', v is not None and not is_const(v, None), 'execution context', f'{k} is read by executions and never set')
    ea, ctx, st, r = api_context(overlay)
    for k in sorted(read):
        v = setting(ea, ctx, k, st)
        rep.ob(f'setting:api:{k}', v is not None and not is_const(v, None), 'context of the API', f'{k} is read by executions and never set')
