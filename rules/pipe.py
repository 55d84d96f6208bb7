"""The processing chain: values from the reader to the maps that are written or returned."""
from .common import *

CHAIN = {('Interpolator', 'interpolate'): 'interpolate', ('Converter', 'convert'): 'convert', ('Converter', 'cut_off_negative'): 'cut off',
         ('Aggregator', 'do_manipulation'): 'aggregate', ('Corrector', 'correct'): 'correct'}


def positional(e, fi, args, kw):
    """arguments in the order of the parameters (without self)"""
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if fi.kind != 'static' and fi.cls is not None:
        names = names[1:]
    out = list(args)
    for n in names[len(args):]:
        if n in kw:
            out.append(kw[n])
        else:
            allp = [x.arg for x in a.posonlyargs + a.args]
            j = allp.index(n) - (len(allp) - len(fi.defaults)) if n in allp else -1
            out.append(fi.defaults[j] if 0 <= j < len(fi.defaults) else NONE)
    return out


def chain_stub(name):
    def f(e, fi, selfn, args, kw, st):
        vals = tuple(e.freeze(x, st) for x in positional(e, fi, args, kw))
        who = e.freeze(selfn, st) if selfn is not None else NONE
        n = N('op', name, vals, who)
        e.emit('op', st, N('ext', name), vals, (), node=n, extra=selfn)
        return n
    return f


def corrector_stub(e, fi, selfn, args, kw, st):
    """corrector objects stay opaque, with the context and the grid id they were asked for"""
    vals = tuple(e.freeze(x, st) for x in positional(e, fi, args, kw))
    return N('op', 'corrector', vals, NONE)


STUBS = {k: chain_stub(v) for k, v in CHAIN.items()}
STUBS[('Corrector', 'get_instance')] = corrector_stub

SINKS = ('pcraster', 'netcdf', 'api')


class Sink:
    pass


def run(rep, overlay=None, which=SINKS, fixed=None):
    """[(name, engine, final state, [(guard, value node, event)])]"""
    out = []
    for s in which:
        k = Sink()
        k.name = s
        k.vals = []
        if s == 'api':
            e, v, st, r = run_api(overlay, fixed, stubs=STUBS)
            rep.scenario(e, 'API execution, all settings open')
            d = e.freeze(v, st)
            k.ret = d
            for c, l in leaves(d, st.g):
                k.vals.append((c, l, None))
        else:
            e, v, st, r = run_controller(overlay, {'outMaps.format': s, **(fixed or {})}, stubs=STUBS)
            rep.scenario(e, f'execution writing {s}, all settings open')
            k.ret = e.freeze(v, st)
            for x in e.events:
                if s == 'pcraster' and x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'WriteArray':
                    k.vals.append((x.g, x.args[0], x))
                if s == 'netcdf' and x.kind == 'setitem' and main_variable(x.args[0]):
                    k.vals.append((x.g, x.args[2], x))
        k.e, k.st, k.raises = e, st, r
        rep.need(k.vals, f'nothing written or returned any more by the {s} execution')
        out.append(k)
    return out


def main_variable(n):
    """the netCDF variable holding the maps: three dimensions"""
    for l in leafset(n):
        if l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] == 'createVariable' and len(l.args[1]) >= 3:
            d = l.args[1][2]
            if d.op in ('tuple', 'listv') and len(d.args[0]) == 3:
                return True
    return False


# calls handing their first argument through (same cells, other container or mask)
THROUGH = {'numpy.ma.masked_where': 1, 'numpy.ma.filled': 0, 'numpy.ma.array': 0, 'numpy.array': 0, 'numpy.asarray': 0, 'numpy.where': None, 'numpy.ma.where': None,
           'collections.OrderedDict': 0, 'dict': 0, 'sorted': 0, 'list': 0, 'tuple': 0, 'reversed': 0, 'enumerate': 0, 'iter': 0, 'zip': None, 'copy.copy': 0,
           'copy.deepcopy': 0, 'numpy.ma.masked_array': 0, 'numpy.ma.MaskedArray': 0, 'numpy.ma.getdata': 0, 'numpy.nan_to_num': 0, 'numpy.copy': 0,
           'numpy.ma.masked_values': 0, 'numpy.ma.masked_invalid': 0, 'numpy.ma.masked_equal': 0, 'numpy.stack': 0, 'numpy.ma.stack': 0, 'numpy.float64': 0,
           'float': 0, 'numpy.ma.copy': 0, 'numpy.ascontiguousarray': 0}
METHODS = {'items', 'values', 'filled', 'copy', 'astype', 'reshape', 'ravel', 'get', 'pop', 'setdefault'}


class Walk:
    """sequences of processing steps between a written value and the reader"""

    def __init__(self, e, decide, limit=9):
        self.e, self.decide, self.limit = e, decide, limit
        self.out = {}          # sequence -> containers of the reader the fields come from
        self.seen = set()

    def go(self, n, seq=()):
        st = [(n, seq, None)]
        while st:
            x, s, box = st.pop()
            if x.op == 'mu':
                box = x
            if (x, s, box) in self.seen:
                continue
            self.seen.add((x, s, box))
            if len(s) > self.limit:
                self.out.setdefault(s[:self.limit] + ('...',), set()).add(box)
                continue
            for y, t in self.step(x, s, box):
                st.append((y, t, box))
        return self

    def step(self, x, s, box):
        if x.op == 'ite':
            a = B.atoms[x.args[0]]
            d = self.decide(a)
            if d is True:
                return [(x.args[1], s)]
            if d is False:
                return [(x.args[2], s)]
            return [(x.args[1], s), (x.args[2], s)]
        if x.op == 'op':
            name, vals = x.args[0], x.args[1]
            if name in CHAIN.values():
                data = vals[2] if name == 'interpolate' else vals[0]
                return [(data, s + (name,))]
        if x.op == 'call':
            f = x.args[0]
            if f.op == 'attr' and f.args[1] == 'correct' and f.args[0].op in ('op', 'ite'):
                return [(x.args[1][0] if x.args[1] else dict(x.args[2])[next(iter(dict(x.args[2])))], s + ('correct',))]
            nm = ext_of(x)
            if nm in THROUGH and THROUGH[nm] is not None and len(x.args[1]) > THROUGH[nm]:
                return [(x.args[1][THROUGH[nm]], s)]
            if nm in ('numpy.where', 'numpy.ma.where', 'zip'):
                return [(a, s) for a in x.args[1][(0 if nm == 'zip' else 1):]]
            if f.op == 'attr' and f.args[1] in METHODS:
                return [(f.args[0], s)]
            if nm == 'eccodes.codes_get_double_array' or nm == 'eccodes.codes_get_values':
                self.out.setdefault(s, set()).add(box)
                return []
        if x.op == 'upd':
            # assignment into the array: cells are replaced by constants, or by another array
            return [(x.args[0], s)] + [(v, s) for v in x.args[2:] if isinstance(v, Node) and v.op not in ('const', 'nan')]
        if x.op == 'attr' and x.args[1] in ('data', 'T', 'flat'):
            return [(x.args[0], s)]
        if x.op in ('elem', 'valof', 'keyof'):
            return [] if x.op == 'keyof' else [(x.args[1], s)]
        if x.op == 'sub':
            # an item of a container or a part of an array
            return [(x.args[0], s)]
        if x.op == 'dcomp':
            return [(x.args[1], s)]
        if x.op == 'comp':
            return [(x.args[1], s)]
        if x.op == 'dupdate':
            return [(x.args[0], s), (x.args[1], s)]
        if x.op in ('append', 'extend'):
            return [(a, s) for a in x.args if isinstance(a, Node)]
        if x.op == 'dictv':
            return [(v, s) for k, v in x.args[0]] + [(a, s) for a in x.args[1:] if isinstance(a, Node)]
        if x.op in ('listv', 'tuple', 'setv'):
            return [(v, s) for v in x.args[0]]
        if x.op == 'mu':
            init, nxt = self.e.mus[x.args]
            return [(init, s), (nxt, s)]
        # anything else: fields can come from every part of it
        return [(a, s) for a in children(x) if a.op not in ('const', 'bool', 'nan', 'ext')]


def children(x):
    out = []

    def add(v):
        if isinstance(v, Node):
            out.append(v)
        elif isinstance(v, tuple):
            for y in v:
                add(y)
    for v in x.args:
        add(v)
    return out


# ------------------------------------------------------------------ executions over given messages
def build_messages(e, st, tag, second):
    """a Messages object as the reader returns it: grid of message gid_<tag>, values values_<tag>"""
    def grid(t):
        r = e.instantiate(e.find_class('GribGridDetails'), [N('param', f'gid_{t}')], {}, st)
        if not hasattr(e, 'given_grids'):
            e.given_grids = {}
        for l in leafset(r):
            e.given_grids[l] = t
        return r
    g1 = grid(tag)
    vals2 = None
    if second == 'file':
        g2 = grid(tag + '2')
        e.call(e.getattr(g1, 'set_2nd_resolution', st), [g2, N('param', f'change_{tag}')], {}, st)
        vals2 = N('param', f'values_{tag}2')
    given = {'values': N('param', f'values_{tag}'), 'mv': N('param', f'mv_{tag}'), 'unit': N('param', f'unit_{tag}'),
             'type_of_level': N('param', f'level_{tag}'), 'type_of_step': N('param', f'steptype_{tag}'), 'step_units': N('param', f'stepunits_{tag}'),
             'grid_details': g1, 'val_2nd': vals2 if vals2 is not None else N('dictv', (), N('empty')) , 'data_date': N('param', f'date_{tag}'),
             'data_time': N('param', f'time_{tag}')}
    m = e.find_class('Messages')
    init = e.clsattr(e.cinfo(m), '__init__')
    fi = e.finfo(init)
    names = [x.arg for x in fi.node.args.args][1:]
    order = list(given)
    args = []
    for i, n in enumerate(names):
        if n in given:
            args.append(given[n])
        elif i < len(order) and order[i] not in names:
            args.append(given[order[i]])
        else:
            break
    if vals2 is None:
        j = names.index('val_2nd') if 'val_2nd' in names else 7
        args[j] = NONE
    return e.instantiate(m, args, {}, st)


def reader_stubs(second=None):
    """second: None, 'file' (both resolutions in one file) or 'input2' (second input file)"""
    calls = []

    def select(e, fi, selfn, args, kw, st):
        tag = 'a' if not calls else 'b'
        calls.append(tag)
        return build_messages(e, st, tag, second if tag == 'a' else None)

    def info(e, fi, selfn, args, kw, st):
        return N('param', 'info')

    def gids(e, fi, selfn, args, kw, st):
        return N('tuple', tuple(N('param', x) for x in ('aux_g', 'aux_v', 'aux_g2', 'aux_v2')))

    def geo(e, fi, selfn, args, kw, st):
        return N('param', 'has_geopotential')
    d = {('GRIBReader', 'select_messages'): select, ('GRIBReader', 'get_grib_info'): info,
         ('GRIBReader', 'get_gids_for_grib_intertable'): gids, ('GRIBReader', 'has_geopotential'): geo}
    return d


def run_given(rep, overlay=None, second=None, which=SINKS, fixed=None, stubs=None):
    """as run(), over messages given by the rule"""
    out = []
    fixed = {'input.two_resolution': second == 'input2', **(fixed or {})}
    for s in which:
        k = Sink()
        k.name, k.vals = s, []
        tab = {**STUBS, **reader_stubs(second), **(stubs or {})}
        what = {None: 'one resolution', 'file': 'two resolutions in one file', 'input2': 'two input files'}[second]
        if s == 'api':
            e, v, st, r = run_api(overlay, fixed, stubs=tab)
            k.ret = e.freeze(v, st)
            for c, l in leaves(k.ret, st.g):
                k.vals.append((c, l, None))
        else:
            e, v, st, r = run_controller(overlay, {'outMaps.format': s, **fixed}, stubs=tab)
            k.ret = e.freeze(v, st)
            for x in e.events:
                if s == 'pcraster' and x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'WriteArray':
                    k.vals.append((x.g, x.args[0], x))
                if s == 'netcdf' and x.kind == 'setitem' and main_variable(x.args[0]):
                    k.vals.append((x.g, x.args[2], x))
        rep.scenario(e, f'{s} execution, {what}')
        k.e, k.st, k.raises = e, st, r
        rep.need(k.vals, f'nothing written or returned any more by the {s} execution')
        out.append(k)
    return out


def labels(e, n, marks, stop=()):
    """which marked inputs a value can come from, through loop carried variables; loops whose own variable is met are not entered twice"""
    out, seen, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        m = marks(x)
        if m:
            out.add(m)
            continue
        if x.op == 'mu':
            st += list(e.mus[x.args])
            continue
        st += children(x)
    return out
