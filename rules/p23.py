"""Configurations that cannot work are refused when they are read."""
from .common import *

EXPLAIN = ('Both execution contexts are evaluated on open command lines, templates and requests with the conditions of all refusals kept; under each defect (a missing file, an unknown '
           'method, name or conversion, ...) the condition of normal completion must vanish and the documented error remain; without the defect that error must be unreachable.')
RULE = 'defect => the context cannot be constructed and raises ApplicationException with the documented code; no defect => not that code; nothing is read from GRIB or written as a map meanwhile'
ASSUME = ['the only files looked at are regular files']
# answers for: nothing there, a file, a folder
TESTS = {'os.path.exists': (False, True, True), 'os.path.lexists': (False, True, True), 'os.access': (False, True, True), 'os.path.isfile': (False, True, False),
         'os.path.isdir': (False, False, True), 'exists': (False, True, True), 'is_file': (False, True, False), 'is_dir': (False, False, True)}
MODES = ('grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')


class World:
    def __init__(self, name, e, ctx, st, r, pathof, full, low):
        self.name, self.e, self.ctx, self.st, self.r, self.pathof, self.full, self.low = name, e, ctx, st, r, pathof, full, low

    def src(self, n):
        """template attributes, request keys and options a value is taken from"""
        out = set()
        for l in leafset(n):
            x = l
            while True:
                x = strip_conv(x)
                p = self.pathof(x)
                if p is not None:
                    out.add(p)
                    break
                if x.op == 'opt':
                    out.add(('-' + x.args[0],))
                    break
                if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('format', 'format_map', 'as_posix', 'strip', 'isdigit', 'isnumeric', 'isdecimal', 'lower'):
                    x = x.args[0].args[0]
                elif x.op == 'call' and ext_of(x) in ('os.path.join', 'os.path.abspath', 'pathlib.Path', 'os.path.normpath', 'str') and x.args[1]:
                    x = x.args[1][-1]
                elif is_const(x):
                    break
                else:
                    out.add(('?',))
                    break
        return out

    def missing(self, path, there=0):
        """the file named by path does not exist (0), is a file (1), is a folder (2)"""
        def d(a):
            if a.op == 'truth':
                x = a.args[0]
                if x.op == 'call' and ext_of(x) in TESTS and x.args[1] and self.src(x.args[1][0]) == {path}:
                    return TESTS[ext_of(x)][there]
                if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in TESTS and self.src(x.args[0].args[0]) == {path}:
                    return TESTS[x.args[0].args[1]][there]
            return None
        return d


def worlds(rep, overlay):
    e, ctx, st, r = cli_context(overlay, given=('commandsFile', 'inputFile'), absent=CONFIG_OPTS, forget=False)
    rep.scenario(e, 'command line and template, refusals kept')
    yield World('cli', e, ctx, st, r, jsonpath, lambda p: ('Execution',) + tuple(p), lambda k: '@' + k)
    e = engine(overlay, forget=False)
    s0 = e.state()
    known = {const(k): N('param', 'none') for k in ()}
    ctx, st, r = e.run(e.find_class('ApiContext'), [N('param', 'params')], {}, s0)
    rep.scenario(e, 'API request, refusals kept')
    config = Facts(apipath, {('addGeopotential',): False, ('downloadConf',): False, ('checkConf',): False})
    st.g = B.restrict_map(st.g, config)
    yield World('api', e, ctx, st, [(B.restrict_map(o[0], config),) + tuple(o[1:]) for o in r], apipath, lambda p: tuple(p), lambda k: k)


def code_of(o):
    """error code when an ApplicationException is raised, the type name otherwise"""
    x = o[1]
    h = o[2].heap.get(x) if x.op == 'ref' else None
    if h is not None and getattr(h.cls, 'name', '') == 'ApplicationException':
        c = h.known.get('code') or h.known.get(const('code'))
        if c is not None and is_const(c):
            return c.args[0]
        return 'ApplicationException'
    return 'other'


def check(rep, overlay=None):
    for w in worlds(rep, overlay):
        rep.need(w.st.g != 0, f'{w.name}: no configuration is accepted')
        one(rep, w)
        for x in w.e.events:
            if x.kind == 'call':
                nm = ext_name(x.fn) or ''
                bad = nm.startswith('eccodes.codes_') or nm in ('netCDF4.Dataset', 'osgeo.gdal.GetDriverByName', 'numpy.save')
                if bad:
                    rep.ob(f'{w.name}:early[{nm}]', False, x.where, f'{nm} is called while the configuration is still being read')
        rep.ob(f'{w.name}:early', True, 'execution context', '')


def one(rep, w):
    P = lambda *k: w.full([w.low(x) if i or w.name == 'cli' else x for i, x in enumerate(k)])
    if w.name == 'cli':
        P = lambda *k: ('Execution',) + tuple(x if x in ('Parameter', 'OutMaps', 'Interpolation') else '@' + x for x in k)
    else:
        P = lambda *k: tuple(k)
    infile = ('-inputFile',) if w.name == 'cli' else ('inputFile',)
    f = lambda **kw: Facts(w.pathof, kw)

    def refused(tag, bad, good, code, what, where='execution context'):
        g = B.restrict_map(w.st.g, bad)
        rep.ob(f'{w.name}:{tag}', g == 0, where, f'{what} is not refused when {showb(g, 5)[:200] if g else ""}')
        rs = [o for o in w.r if code_of(o) == code]
        ok = any(B.restrict_map(o[0], bad) for o in rs)
        rep.ob(f'{w.name}:{tag}:error', ok, where, f'{what} is not reported with error {code}')
        if good is not None:
            over = [o for o in rs if B.restrict_map(o[0], good)]
            rep.ob(f'{w.name}:{tag}:only', not over, f'{over[0][4][0]}:{over[0][4][1]}' if over else where, f'error {code} is possible without: {what}')

    def files(tag, paths, code, what, also=None):
        good = both(*[w.missing(p, 1) for p in paths], *([also] if also else []))
        for p in paths:
            refused(f'{tag}[{p[-1]}]' if len(paths) > 1 else tag, both(w.missing(p), *([also] if also else [])), good, code, f'a missing {what}')
            g = B.restrict_map(w.st.g, both(w.missing(p, 2), *([also] if also else [])))
            rep.ob(f'{w.name}:{tag}[{p[-1]}]:folder', g == 0, 'execution context', f'a folder in place of the {what} is not refused')
    files('input file', [infile], 1000, 'input file')
    if w.name == 'cli':
        files('template', [('-commandsFile',)], 0, 'template')
    files('coordinates', [P('OutMaps', 'Interpolation', 'latMap'), P('OutMaps', 'Interpolation', 'lonMap')], 1300, 'coordinates map')
    files('clone map', [P('OutMaps', 'cloneMap')], 1310, 'clone map')
    par = {'formula': P('Parameter', 'correctionFormula'), 'gem': P('Parameter', 'gem'), 'dem': P('Parameter', 'demMap')}
    on = Facts(w.pathof, {p: True for p in par.values()})

    def corr(a):
        if a.op == 'truth' and w.src(a.args[0]) and w.src(a.args[0]) <= set(par.values()) and a.args[0].op != 'call':
            return True
        if a.op == 'truth' and a.args[0].op == 'call' and a.args[0].args[0].op == 'attr' and a.args[0].args[0].args[1] == 'format' and w.src(a.args[0]) <= set(par.values()):
            return True
        return on(a)
    files('DEM map', [par['dem']], 4300, 'DEM map with correction configured', also=corr)
    # interpolation method
    mode = P('OutMaps', 'Interpolation', 'mode')

    def method(m):
        def d(a):
            if a.op == 'eq':
                for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                    if w.src(x) == {mode} and is_const(y):
                        return y.args[0] == m
            if a.op == 'in' and w.src(a.args[0]) == {mode} and a.args[1].op in ('tuple', 'listv', 'setv'):
                return any(is_const(v, m) for v in a.args[1].args[0])
            if a.op == 'truth' and w.src(a.args[0]) == {mode}:
                return True
            return None
        return d
    refused('method', method('something else'), None, 8400, 'an unknown interpolation method')
    for m in MODES:
        over = [o for o in w.r if code_of(o) == 8400 and B.restrict_map(o[0], method(m))]
        rep.ob(f'{w.name}:method[{m}]', not over, 'execution context', f'interpolation method {m} is refused')
    # level
    lev = P('Parameter', 'level')

    def level(num):
        F = Facts(w.pathof, {lev: True}, zero=True)

        def d(a):
            if a.op == 'truth' and a.args[0].op == 'call' and a.args[0].args[0].op == 'attr' and a.args[0].args[0].args[1] in ('isdigit', 'isnumeric', 'isdecimal') and w.src(a.args[0]) == {lev}:
                return num
            return F(a)
        return d
    refused('level', level(False), level(True), 1400, 'a level that is not a number')
    # start after end
    nums = {'start': {P('Parameter', 'tstart'), ('-start',), ('start',)}, 'end': {P('Parameter', 'tend'), ('-end',), ('end',)}}

    def which(n):
        s = w.src(n)
        for k, v in nums.items():
            if s and s <= v:
                return k
        return None

    def steps(after, end0=None):
        def d(a):
            if a.op == 'lt':
                x, y = which(a.args[0]), which(a.args[1])
                if (x, y) == ('end', 'start'):
                    return after
                if (x, y) == ('start', 'end'):
                    return False if after else None
                if x and is_const(a.args[1], 0) or y and is_const(a.args[0], 0):
                    return bool(y)
            if a.op == 'eq':
                x, y = which(a.args[0]), which(a.args[1])
                if {x, y} == {'start', 'end'} and after:
                    return False
                z = [v for v in a.args if is_const(v)]
                if (x or y) and z and z[0].args[0] in (None, ''):
                    return False
                if (x or y) and z and z[0].args[0] == 0:
                    return (x or y) == 'end' and end0
            if a.op == 'isnone' and which(a.args[0]):
                return False
            if a.op == 'truth' and which(a.args[0]):
                return True if which(a.args[0]) == 'start' else not end0
            return None
        return d
    for end0 in (False, True):
        refused('start after end' + (' 0' if end0 else ''), steps(True, end0), steps(False, end0), 1500, 'a start step after the end step')
    # names
    short, conv = P('Parameter', 'shortName'), P('Parameter', 'applyConversion')

    def known(yes):
        def d(a):
            x = a.args[0]
            if a.op in ('truth', 'isnone') and x.op in ('call', 'sub'):
                k = x.args[1][0] if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and x.args[1] else (x.args[1] if x.op == 'sub' else None)
                if k is not None and w.src(k) == {short} and isinstance(k, Node) and w.pathof(x) is None:
                    return yes == (a.op == 'truth')
            if a.op == 'in' and w.src(a.args[0]) == {short}:
                return yes
            return None
        return d
    refused('short name', known(False), known(True), 1100, 'a parameter that is not configured')
    there = Facts(w.pathof, {conv: True})

    def conversion(yes):
        def d(a):
            if a.op == 'eq' and any(w.src(x) == {conv} for x in a.args if isinstance(x, Node)):
                return yes
            if a.op in ('isinst', 'iter') and yes:
                return None
            return there(a)
        return d
    refused('conversion', both(known(True), conversion(False)), None, 1200, 'a conversion that is not configured')
    if w.name == 'cli':
        def noinput(a):
            if a.op in ('truth', 'isnone') and a.args[0] is N('opt', 'inputFile'):
                return a.op == 'isnone'
            return None
        refused('no input file', noinput, None, 1001, 'a command line without input file')
