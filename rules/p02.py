"""Unit conversion and cut-off of negative values, cell by cell."""
import json, os, re
from .cells import *
from .p01 import stores, Kinds
from .pipe import *

EXPLAIN = ('Converter.convert and cut_off_negative are evaluated abstractly on an arbitrary field for every conversion function of the configuration; the resulting expression is then evaluated for one cell '
           'in each possible state (masked, missing value, positive, negative).')
RULE = 'converted cell = function(cell) when it is not missing; missing cells (masked or missing value of the messages) stay missing; cut-off: negative cells become 0, all others and missing cells stay'
ASSUME = ['values of cells that are not missing differ from the missing value']
W = 'pyg2p/main/manipulation/conversion.py'
EXTRA = ['x=x*x-2*x', 'x=(x+40)*1.8-40', 'x=100*x/1013.25']
X, MV = N('param', 'x'), N('param', 'mv')
CELL, DATA = N('param', 'value of the cell'), N('param', 'data under the mask')


def functions():
    out = set(EXTRA)
    base = os.environ.get('REPO', '/repo') + '/configuration'
    for d, ds, fs in os.walk(base):
        for f in fs:
            if f.endswith('.json'):
                out |= set(re.findall(r'"@function"\s*:\s*"([^"]*)"', open(os.path.join(d, f)).read()))
    return sorted(out)


def worlds():
    """(name, masked, value, sign, array is a masked one)"""
    out = []
    for data in (DATA, MV):
        out.append(('masked', True, data, {}, True))
    for arr in (True, False):
        out.append(('missing value', False, MV, {}, arr))
        out.append(('positive', False, CELL, {CELL: '+'}, arr))
        out.append(('negative', False, CELL, {CELL: '-'}, arr))
        out.append(('not a number', False, NAN, {}, arr))
    return out


def expected(text):
    """ratio of a function text over the cell"""
    import ast as A
    t = A.parse(text.split('=', 1)[1].strip(), mode='eval').body

    def go(n):
        if isinstance(n, A.Name):
            return of(CELL)
        if isinstance(n, A.Constant):
            return num(n.value), num(1)
        if isinstance(n, A.UnaryOp):
            return plus((num(0), num(1)), go(n.operand), -1)
        a, b = go(n.left), go(n.right)
        return {'Add': lambda: plus(a, b), 'Sub': lambda: plus(a, b, -1), 'Mult': lambda: times(a, b), 'Div': lambda: over(a, b)}[type(n.op).__name__]()
    return go(t)


def check(rep, overlay=None):
    try:
        conversion(rep, overlay)
        cutoff(rep, overlay)
        used(rep, overlay)
    except Unknown as x:
        rep.need(False, str(x))


def make(overlay, func):
    e = engine(overlay, {})
    st = e.state()
    c, st, r = e.run(e.find_class('Converter'), [], {'func': const(func), 'cut_off': const(True)}, st)
    return e, c, st


def conversion(rep, overlay):
    for func in functions():
        e, c, st = make(overlay, func)
        e.run(e.getattr(c, 'set_missing_value', st), [MV], {}, st)
        v, st, r = e.run(e.getattr(c, 'convert', st), [X], {}, st)
        v = e.freeze(v, st)
        rep.scenario(e, f'conversion {func}')
        bad = [x for x in e.events if x.kind in ('ne_syntax', 'ne_unbound', 'ne_maybe_unbound') and x.g]
        rep.ob(f'convert:{func}:names', not bad, bad[0].where if bad else W, f'{func} cannot be evaluated')
        want = expected(func)
        for name, masked, val, sign, arr in worlds():
            if name == 'not a number':
                continue
            cell = Cells(e, World(lambda n: (masked, val) if n is X else None, sign, lambda n: arr if n is X else None, None, (DATA, CELL)))
            for m, t in cell(v):
                if masked:
                    rep.ob(f'convert:{name}', m, W, f'{func}: a missing (masked) cell is not missing after conversion')
                elif name == 'missing value':
                    rep.ob(f'convert:{name}', m or t is MV or func == 'x=x', W, f'{func}: the missing value does not stay the missing value')
                else:
                    rep.ob(f'convert:{func}', not m and t is not NAN and equal(cell.asratio(t), want), W, f'{func}: a {name} cell is not converted with the function')


def cutoff(rep, overlay):
    def cells(e, v, src, one):
        for name, masked, val, sign, arr in worlds():
            if name == 'missing value':
                continue
            cell = Cells(e, World(lambda n: (masked, val) if src(n) else None, sign, lambda n: arr if src(n) else None, lambda a: False if a.op == 'isinst' and is_dict(a) and one else None, (DATA, CELL)))
            for m, t in cell(v):
                if masked:
                    rep.ob(f'cut:{name}', m, W, 'a missing (masked) cell is not missing after the cut-off')
                elif name == 'negative':
                    rep.ob(f'cut:{name}', not m and is_const(t, 0), W, 'a negative cell is not 0 after the cut-off')
                else:
                    rep.ob(f'cut:{name}', not m and t is val, W, f'a {name} cell is changed by the cut-off')
    e, c, st = make(overlay, 'x=x')
    v, st, r = e.run(e.getattr(c, 'cut_off_negative', st), [X], {}, st)
    v = e.freeze(v, st)
    rep.scenario(e, 'cut-off of fields')
    cells(e, v, lambda n: n is X, True)
    # fields by step
    k = Kinds(e, X)
    n = 0
    boxes = [l for c, l in leaves(v) if positive(c) is not None and B.restrict_map(c, lambda a: True if a.op == 'isinst' and is_dict(a) else None)]
    seen = set()
    for b in boxes:
        for g, key, val, l in stores(e, b):
            if l in seen:
                continue
            seen.add(l)
            n += 1
            same = key.op in ('keyof', 'elem') and (N('valof', *key.args) if key.op == 'keyof' else None)
            src = [z for z in walk(val) if z.op in ('valof', 'sub') and k(z) == 'arr']
            rep.ob('cut:step', src and all(z is same or z.op == 'sub' and z.args[1] is key for z in src), W, 'the cut-off of a field is stored as the one of another step')
            for z in set(src):
                cells(e, val, lambda q: q is z, True)
            if l.op == 'dcomp' and len(l.args) > 3:
                g = B.AND(g, tobdd(l.args[3]))
            every = B.restrict_map(g, lambda a: True if a.op in ('iter',) or a.op == 'isinst' and is_dict(a) else None)
            keep = [a for a in atoms_in(every)]
            rep.ob('cut:every', every == 1 or not keep or all(a.op == 'isinst' for a in keep), W, 'the cut-off is not applied to the fields of all steps')
    rep.ob('cut:dict', n, W, 'the cut-off is not applied to fields by step')


def atoms_in(c):
    return [B.atoms[i] if isinstance(i, int) else i for i in B.support(c)]


def is_dict(a):
    return 'dict' in show(a.args[1], 3) or 'Mapping' in show(a.args[1], 3)


def positive(c):
    """condition that the argument is a dictionary"""
    for a in atoms_in(c):
        if a.op == 'isinst' and is_dict(a):
            return B.implies(c, atom(a))
    return None


def used(rep, overlay):
    """the execution converts with the configured function and the missing value of the messages"""
    for k in run_given(rep, overlay, None, ('api',)):
        e = k.e
        w = 'pyg2p/main/controller.py'
        made = [x for x in e.events if x.kind == 'new' and x.g and x.fn.op == 'cls' and e.cinfo(x.fn).name == 'Converter']
        rep.need(made, 'no conversion in the execution')
        for x in made:
            kw = {**dict(zip(('func', 'cut_off'), x.args[1:])), **dict(x.kw)}
            f, c = kw.get('func'), kw.get('cut_off')
            rep.ob('function', f is not None and strip_conv(f) is cfg('parameter.conversionFunction'), x.where, 'the conversion is not done with the configured function')
            rep.ob('cut-off', c is not None and strip_conv(c) is cfg('parameter.cutoffnegative'), x.where, 'the cut-off is not the one of the conversion')
        refs = {x.node for x in made}
        mv = [x for x in e.events if x.kind == 'setattr' and x.g and x.args[0] in refs and mentions(x.args[1], lambda z: z is N('param', 'mv_a') or is_const(z, 'missingValue'))]
        rep.ob('missing', mv, w, 'the missing value of the messages is not given to the conversion')

