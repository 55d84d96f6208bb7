"""Which cells of what is written or returned are missing."""
from .pipe import *
from .cells import *
from .cells import World as CellWorld

EXPLAIN = ('Executions of the three kinds are evaluated abstractly with interpolation and correction opaque; what reaches WriteArray, the netCDF variable and the returned values is evaluated for one cell '
           'in every combination of clone map (missing, number, not a number) and interpolated field (number, missing value, not a number, masked), clone and coordinate maps having the same missing value or not.')
RULE = 'a cell is missing if and only if the clone map or the field is missing there; others have the value of the field'
ASSUME = ['maps have one value per cell of the target grid', 'a number of the field never equals a missing value']
CLONE, OUT, X, C = N('param', 'missing value of the clone map'), N('param', 'missing value of the coordinates'), N('param', 'value of the field'), N('param', 'value of the clone map')
JUNK = N('param', 'number below a mask')
FIELDS = {'a number': (False, X), 'the missing value': (False, OUT), 'not a number': (False, NAN), 'masked': (True, JUNK), 'masked, with the missing value': (True, OUT)}
# netCDF clone maps by how they tell their missing value
KINDS = {'missing_value': 'missing_value attribute', '_FillValue': 'fill value', 'integer': 'whole numbers', 'none': 'no missing value'}
CLONES = {'missing': CLONE, 'a number': C}


def check(rep, overlay=None):
    rep.each([(s, k) for s in SINKS for k in ('map',) + tuple(KINDS) if s == 'netcdf' or k == 'map'], lambda r, a: sink(r, overlay, *a), width=4)


def about(n, key):
    """a setting is what the file was opened with"""
    return mentions(n, lambda y: y.op == 'cfg' and (y.args[1] == key or is_const(y.args[1], key)))


def sink(rep, overlay, s, kind):
    k = run_given(rep, overlay, None, (s,))[0]
    e = k.e
    for cl, cv in CLONES.items():
        for nm, f in FIELDS.items():
            for same in (False, True):
                for latnc in (False, True):
                    for corr in (False, True):
                        judge(rep, k, s, kind, nm, f, cl, cv, same, latnc, corr)
    if s == 'pcraster':
        tell(rep, k)
    cell = lambda y: 'cells' if result(y) or y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'ReadAsArray' else None
    for g, v, x in k.vals:
        where = str(x.where) if x is not None else W
        ms = moved(e, v, cell) + [m for p in (x.args[1].args[0] if x is not None and x.kind == 'setitem' and x.args[1].op == 'tuple' else ()) if p.op == 'slice' and not is_const(p.args[2], None, 1) for m in [p]]
        rep.ob(f'{s}:places', not ms, where, f'{s}: cells of the field or of the clone map are put in other places: {show(ms[0], 3)[:120] if ms else ""}')


def tell(rep, k):
    """the missing value of the written band is told"""
    e = k.e
    for g, v, x in k.vals:
        band = x.fn.args[0]
        told = [y for y in e.events if y.kind == 'call' and y.fn.op == 'attr' and y.fn.args[1] == 'SetNoDataValue' and y.args and y.g == x.g]
        for y in told:
            rep.ob('pcraster:told', is_nodata(y.args[0], 'outMaps.clone'), y.where, 'pcraster: the missing value told to the output map is not the one of the clone map')


def is_nodata(n, key):
    return n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'GetNoDataValue' and about(n, key)


def result(n):
    """what interpolation or correction give"""
    return n.op == 'op' and n.args[0] in ('interpolate', 'correct') or n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[0].op == 'op' and n.args[0].args[0].args[0] == 'corrector'


class Rounds(Cells):
    """masks carried from the fields before: those can have been anything"""

    def accumulate(self, n):
        if n in self.before:
            return self.before[n]
        init, nxt = self.e.mus[n.args]
        out = self.truth(init)
        if out is None:
            return None
        for _ in range(2):
            for f in FIELDS.values():
                t = self.other(f, {**self.before, n: frozenset(out)}).truth(nxt)
                if t is None:
                    return None
                out = set(out) | set(t)
        return out


def world(k, kind, f, cv, same, latnc=False, corr=False, before=None):
    e = k.e
    box = {}

    def key(n):
        return 'clone' if about(n, 'outMaps.clone') else 'coordinates' if about(n, 'interpolation.latMap') or about(n, 'interpolation.lonMap') else None

    def source(n):
        cells = box['cells']
        if result(n) or n.op == 'mu' and str(n.args[1]).startswith('@cont') and result(e.mus[n.args][0]):
            # made anew in every round
            return f
        if n is CLONE or n is OUT and same:
            return (False, CLONE)
        of = key(n)
        if of and (n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'GetNoDataValue' or
                   n.op == 'sub' and n.args[0].op in ('ext', 'attr') and 'default_fillvals' in show(n.args[0], 2) or n.op == 'attr' and n.args[1] in ('missing_value', '_FillValue')):
            return (False, CLONE if same or of == 'clone' else OUT)
        if of and (n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'ReadAsArray' or
                   n.op == 'sub' and n.args[0].op == 'sub' and n.args[0].args[0].op == 'attr' and n.args[0].args[0].args[1] == 'variables'):
            return (False, cv) if of == 'clone' else (False, N('param', 'coordinate'))
        if n.op == 'append':
            return set(cells(n.args[0])) | set(cells(n.args[1]))
        if n.op == 'extend':
            return set(cells(n.args[0])) | set(cells(n.args[1]))
        if n.op in ('listv', 'setv', 'tuple', 'gseq'):
            return set().union(*[cells(y) for y in n.args[0]]) if n.op != 'gseq' else None
        if n.op == 'empty' or n.op == 'dictv':
            return set().union(*[cells(v) for _, v in n.args[0]]) if n.op == 'dictv' else set()
        if n.op in ('dupdate',):
            return set(cells(n.args[0])) | set(cells(n.args[2]))
        if n.op == 'upd' and n.args[1].op in ('keyof', 'elem', 'lidx', 'sub', 'tuple'):
            # stored for a step, in a container
            return set(cells(n.args[0])) | set(cells(n.args[2]))
        if n.op in ('comp', 'dcomp'):
            return set(cells(n.args[1]))
        if n.op == 'call' and ext_of(n) in ('collections.OrderedDict', 'dict', 'sorted', 'list', 'tuple', 'numpy.ma.stack', 'numpy.stack', 'zip', 'reversed') and n.args[1]:
            return set(cells(n.args[1][-1 if ext_of(n) == 'zip' else 0]))
        if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in ('items', 'values'):
            return set(cells(n.args[0].args[0]))
        if n.op == 'sub' and array(n.args[0]):
            return set(cells(n.args[0]))
        if n.op in ('valof',) or n.op == 'elem' and array(n.args[1]):
            return set(cells(n.args[1]))
        return None

    def array(b, depth=0):
        """made of fields"""
        return any(l.op in ('append', 'dupdate', 'comp', 'upd') or l.op == 'call' and (ext_of(l) or '').startswith('numpy') or l.op == 'mu' for l in leafset(b)) and made(b)

    def made(b):
        return bool(labels(e, b, lambda y: y.op == 'op' and y.args[0] == 'interpolate' and 'field'))

    def scalar(a):
        if a.op == 'isinst' and 'ndarray' in show(a.args[1], 3):
            return True
        if a.op == 'truth' and mentions(a, lambda y: y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'endswith' or y.op == 'const' and y.args[0] == '.nc') and about(a, 'outMaps.clone'):
            return kind != 'map'
        if a.op == 'truth' and a.args[0].op == 'call' and ext_of(a.args[0]) == 'hasattr' and about(a, 'outMaps.clone'):
            return is_const(a.args[0].args[1][1], kind)
        if a.op == 'truth' and a.args[0].op == 'call' and ext_of(a.args[0]) == 'numpy.issubdtype' and about(a, 'outMaps.clone'):
            return kind == 'integer'
        if a.op == 'truth' and about(a, 'interpolation.latMap') and mentions(a, lambda y: y.op == 'const' and y.args[0] == '.nc'):
            return latnc
        if a.op == 'truth' and about(a, 'execution.doCorrection'):
            return corr
        return None
    w = CellWorld(source, masked_array=lambda n: True if f[0] and result(n) else None, scalar=scalar)
    c = box['cells'] = Rounds(e, w)
    c.before, c.other = before or {}, lambda f2, b: world(k, kind, f2, cv, same, latnc, corr, b)
    return box['cells']


def judge(rep, k, s, kind, nm, f, cl, cv, same, latnc, corr):
    what = f'{s}{f" with a netCDF clone map ({KINDS[kind]})" if kind != "map" else ""}: where the clone map is {cl} and the field is {nm}' + (', with one missing value' if same else '') + (', coordinates in a netCDF map' if latnc else '') + (', with correction' if corr else '')
    if kind == 'none' and cv is CLONE:
        cv = NAN
    if same and f[1] is OUT:
        f = (f[0], CLONE)
    cells = world(k, kind, f, cv, same, latnc, corr)
    missing = cv is not C or f != (False, X)
    seen = set()
    where = W
    for g, v, x in k.vals:
        where = str(x.where) if x is not None else W
        try:
            seen |= set(cells(v))
        except Unknown as u:
            rep.need(False, f'{s}: {u}')
    vals = {v for m, v in seen}
    if not missing:
        rep.ob(f'{s}:value', vals == {X}, where, f'{what}, the cell has {names(vals)}')
    else:
        ok = len(vals) == 1 and X not in vals and JUNK not in vals and NAN not in vals and C not in vals
        # netCDF has a missing value of its own: what P31 demands; all missing cells have the same
        k.missing = getattr(k, 'missing', None) or vals
        ok = ok and vals == (k.missing if s == 'netcdf' else {CLONE})
        rep.ob(f'{s}:missing', ok, where, f'{what}, the cell has {names(vals)}')


def moved(e, n, about, below=False):
    """operations that put cells of a value in other places"""
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if not below and (result(x) or x.op == 'op'):
            continue
        move = x.op == 'call' and (ext_of(x) in MOVE or x.args[0].op == 'attr' and x.args[0].args[1] in MOVES) or x.op == 'attr' and x.args[1] == 'T'
        if x.op == 'sub':
            ks = x.args[1].args[0] if x.args[1].op == 'tuple' else [x.args[1]]
            move = any(k.op == 'slice' and len(k.args) > 2 and not is_const(k.args[2], None, 1) for k in ks)
        if x.op == 'call' and (ext_of(x) in ('numpy.reshape', 'numpy.ravel') or x.args[0].op == 'attr' and x.args[0].args[1] in ('reshape', 'ravel', 'flatten')):
            o = dict(x.args[2] or ()).get('order')
            move = o is not None and is_const(o, 'F', 'A')
        if move and labels(e, x, about):
            out.append(x)
        if x.op == 'mu':
            todo += [y for y in e.mus.get((x.args[0], x.args[1]), ()) if isinstance(y, Node)]
            continue
        todo += children(x)
    return out


W = 'pyg2p/main/writers/__init__.py'


def names(vs):
    return ', '.join(sorted(v.args[0] if isinstance(v, Node) and v.op == 'param' else 'nan' if v is NAN else 'something else' for v in vs))
