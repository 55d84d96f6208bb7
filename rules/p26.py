"""What an execution leaves behind in the process has no effect on the next ones."""
import ast
import importlib
from sa.names import sources
from sa.report import Report
from . import common, tables
from .pipe import *

EXPLAIN = ('Executions from both contexts, the configuration command and all components are evaluated abstractly. Every store into an object that outlives an execution '
           '(attributes of classes, module variables, default values of parameters) is followed to what is stored and under which key.')
RULE = ('a value that is kept either depends on no input of the execution, or is kept under a key that determines every input it depends on, or is an interpolation table kept under '
        'the path it was saved to or read from; what is kept is not changed afterwards; no module variable is set and no process-wide setting is changed')
ASSUME = ['maps, tables and geopotential files are not changed by others while the process runs', 'what is logged is not part of the results']
STORES = ('setitem', 'append', 'extend', 'dupdate', 'delitem', 'inplace', 'setattr')
SETTERS = ('os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.environ.update', 'os.environ.setdefault', 'os.environ.pop', 'numpy.seterr', 'numpy.set_printoptions', 'locale.setlocale',
           'time.tzset', 'sys.setrecursionlimit', 'random.seed', 'numpy.random.seed', 'builtins.setattr')
CHANGE = ('sort', 'fill', 'put', 'resize', 'partition', 'itemset', 'byteswap', 'setfield', 'setflags', 'insert', 'remove', 'reverse', 'add', 'discard', 'update', 'append', 'extend',
          'setdefault', 'popitem', 'harden_mask', 'soften_mask')
NPCHANGE = ('numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.put_along_axis', 'numpy.random.shuffle')
VIEWS = ('reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'get', 'setdefault', 'values', 'items')
NPVIEWS = ('numpy.asarray', 'numpy.asanyarray', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.transpose', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.flip', 'numpy.flipud',
           'numpy.fliplr', 'numpy.swapaxes', 'numpy.broadcast_to', 'numpy.ma.asarray', 'numpy.ma.getdata', 'numpy.ma.getmask')
SCALAR = ('shape', 'size', 'dtype', 'ndim', 'nbytes', 'itemsize')
KEYED = ('str', 'repr', 'tuple', 'frozenset', 'json.dumps', 'os.path.normpath', 'os.path.abspath', 'os.path.realpath', 'pathlib.Path', 'os.fspath')
INPUT = ('cfg', 'param', 'total', 'opt', 'unk')
GENERATORS = 'p02 p05 p07 p08 p09 p10 p16 p20 p24 p28 p34 p36 p38'.split()
HOW = ('mode', 'latMap', 'lonMap', 'rotated_target', 'cdd_map', 'cdd_mode', 'cdd_options')


def check(rep, overlay=None):
    text(rep, overlay)
    rep.each(['command', 'netcdf', 'api', 'corrector'] + [('mode', m, w) for m in tables.MODES for w in (False, True)] + GENERATORS, lambda r, it: evaluated(r, overlay, it), width=8)


# ------------------------------------------------------------------ what outlives an execution

def base(n, scalars=False):
    """the object a view shows a part of; None for a plain number taken from it"""
    while True:
        if n.op == 'attr' and n.args[1] in SCALAR and not scalars:
            return None
        if n.op in ('sub', 'attr'):
            n = n.args[0]
        elif n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in VIEWS:
            n = n.args[0].args[0]
        elif n.op == 'call' and ext_of(n) in NPVIEWS and n.args[1]:
            n = n.args[1][0]
        else:
            return n


def shared(e, n):
    """(guard, leaf, object) for the parts of a value that outlive the execution"""
    out = []
    for g, l in n:
        b = base(l)
        if b is None:
            continue
        for g2, x in leaves(b, g):
            y = base(x)
            if y is not None and (y.op in ('clsvar', 'cls', 'mod', 'module') or y.op == 'ref' and y in e.global_heap):
                out.append((g2, l, y))
    return out


def stores(e):
    """(event, guard, leaf, object) of every store into a shared object"""
    out = []
    for x in e.events:
        if x.kind in STORES and x.args and isinstance(x.args[0], Node):
            out += [(x,) + s for s in shared(e, leaves(x.args[0], x.g))]
        elif x.kind == 'call' and isinstance(x.fn, Node):
            t = changed(x)
            if t is not None:
                out += [(x,) + s for s in shared(e, leaves(t, x.g))]
    return out


def changed(x):
    """the argument a library function changes in place"""
    if x.fn.op == 'attr' and x.fn.args[1] in CHANGE:
        return x.fn.args[0]
    if ext_name(x.fn) in NPCHANGE and x.args and isinstance(x.args[0], Node):
        return x.args[0]
    return None


def parts(k):
    """what a key determines: its elements, also inside texts"""
    if k.op == 'tuple':
        return [p for x in k.args[0] for p in parts(x)]
    if k.op == 'fmt':
        return [k] + [p for x in children(k) for p in parts(x)]
    if k.op == 'call' and ext_of(k) in KEYED and k.args[1]:
        return [k] + parts(k.args[1][0])
    if k.op == 'call' and k.args[0].op == 'attr' and k.args[0].args[1] == 'items':
        return [k] + parts(k.args[0].args[0])
    return [k]


def inputs(e, st, n, stops=()):
    """inputs of the execution a value depends on, not looking into what the key has"""
    out, seen, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if not isinstance(x, Node) or x in seen or x in stops:
            continue
        seen.add(x)
        if x.op in INPUT:
            out.add(x)
        elif x.op == 'mu':
            todo += list(e.mus.get((x.args[0], x.args[1]), ()))
        elif x.op == 'ref':
            if x not in e.global_heap and x in st.heap:
                h = st.heap[x]
                todo += [e.freeze(v, st) for k, v in h.known.items() if 'log' not in str(k)]
                if isinstance(h.base, Node):
                    todo.append(h.base)
        elif x.op in ('ne', 'nefn'):
            todo += [c for c in children(x) if c.op != 'ref']
        elif x.op not in ('cls', 'clsvar', 'func'):
            todo += children(x)
    return out


def reach(e, st, n):
    """the objects a kept value consists of"""
    out, todo = set(), [n]
    while todo:
        x = todo.pop()
        if not isinstance(x, Node) or x in out or x.op == 'const' or is_const(x):
            continue
        out.add(x)
        if x.op == 'ref':
            if x in st.heap:
                todo += [e.freeze(v, st) for v in st.heap[x].known.values()]
        elif x.op == 'ite':
            todo += [x.args[1], x.args[2]]
        elif x.op in ('tuple', 'listv'):
            todo += children(x)
        else:
            b = base(x)
            if b is not None and b is not x:
                todo.append(b)
    return {x for x in out if x.op not in ('ite', 'cls', 'clsvar', 'ext', 'func', 'cfg', 'param', 'tuple', 'listv')}


# ------------------------------------------------------------------ tables

def opened(p):
    """the path of what is read or written: itself, or what was opened for it"""
    while p.op == 'call' and ext_of(p) in ('gzip.GzipFile', 'gzip.open', 'builtins.open', 'open', 'io.BytesIO') and p.args[1]:
        p = p.args[1][0]
    return p


def paths(n, g):
    return [(c2, q) for c, l in leaves(n, g) for c2, q in leaves(opened(l), c)]


def same_file(q, k, g):
    """the file of that name, or of that name with something appended"""
    q, k = tables.strip_path(q), tables.strip_path(k)
    if q is k:
        return True
    if q.op == 'fmt' or q.op == 'bin' and q.args[0] in ('+', 'add'):
        c = children(q)
        return bool(c) and all(tables.strip_path(l) is k for c2, l in leaves(c[0], g)) and all(is_const(x) for x in c[1:])
    return False


def table(e, x, g):
    """an interpolation table is kept under the path it is read from, or was saved to"""
    keys = [(c, l) for c, l in leaves(x.args[1], g)]
    vals = leaves(x.args[2], g)
    saves = None
    for c, v in vals:
        if v.op == 'call' and ext_of(v) == 'numpy.load' and v.args[1]:
            got = paths(v.args[1][0], c)
        else:
            if saves is None:
                saves = [y for y in e.events if y.kind == 'call' and ext_name(y.fn) == 'numpy.save' and len(y.args) > 1]
            got = [(B.AND(c2, c1), q) for y in saves for c1, w in leaves(y.args[1], B.AND(y.g, c)) if w is v for c2, q in paths(y.args[0], y.g)]
            got = [(c1, q) for c1, q in got if c1]
        if not got:
            return False
        for c1, q in got:
            if not all(same_file(q, k, B.AND(c1, c2)) for c2, k in keys if B.AND(c1, c2)):
                return False
    return bool(vals)


# ------------------------------------------------------------------ scenarios

def world(e, st, x, g, leaf, obj, st2=None):
    """None when the store is fine, else what is wrong"""
    if x.kind == 'setattr':
        bad = inputs(e, st, x.args[1])
        return None if not bad else f'it depends on {names(bad)}'
    if x.kind == 'setitem' and leaf is base(leaf) and len(x.args) > 2:
        if table(e, x, g):
            return None
        bad = set()
        for c, k in leaves(x.args[1], g):
            ps = set(parts(k)) | {x.args[1]}
            for c2, v in leaves(x.args[2], c):
                bad |= inputs(e, st, v, ps)
        return None if not bad else f'what is kept depends on {names(bad)}, which the key does not determine'
    if x.kind == 'delitem' and obj.op == 'clsvar':
        return None
    return 'it is changed in place'


def names(nodes):
    return ', '.join(sorted({show(n, 2)[:60] for n in nodes})[:4])


def judge(rep, e, st, what):
    kept = []
    for x, g, leaf, obj in stores(e):
        name = show(obj, 2) if obj.op != 'ref' else 'an object of a module or class'
        bad = world(e, st, x, g, leaf, obj)
        where = str(x.where or x.loc)
        rep.ob(f'kept:{where.rsplit(" ", 1)[-1]}:{x.kind}', bad is None, where, f'{what}: {name} outlives the execution: {bad}')
        if x.kind in ('setitem', 'setattr') and bad is None:
            for c, v in leaves(x.args[-1], g):
                for r in reach(e, st, v):
                    kept.append((x.seq, c, r, where))
    byobj = {}
    for s, c, r, w in kept:
        byobj.setdefault(r, []).append((s, c, w))
    for x in e.events:
        t = x.args[0] if x.kind in STORES and x.args and isinstance(x.args[0], Node) else changed(x) if x.kind == 'call' and isinstance(x.fn, Node) else None
        if t is None or not byobj:
            continue
        for g, l in leaves(t, x.g):
            b = base(l)
            if b is None:
                continue
            for g2, y in leaves(b, g):
                y = base(y) or y
                hits = [w for s, c, w in byobj.get(y, ()) if s < x.seq and B.AND(c, g2)]
                if hits:
                    bad = True
                    if x.kind == 'setattr' and y.op == 'ref' and y in st.heap:
                        own = {e.freeze(v, st) for v in st.heap[y].known.values()}
                        bad = bool(inputs(e, st, x.args[1], own - {x.args[1]}))
                    where = str(x.where or x.loc)
                    rep.ob(f'unchanged:{where.rsplit(" ", 1)[-1]}', not bad, where, f'{what}: what {hits[0].rsplit(" ", 1)[-1]} keeps for later executions is changed ({x.kind} of {show(l, 3)[:80]})')
    for x in e.events:
        if x.kind == 'call' and isinstance(x.fn, Node) and x.g and ext_name(x.fn) in SETTERS:
            rep.ob('process-setting', False, str(x.where or x.loc), f'{what}: {ext_name(x.fn)} changes a setting of the whole process')
        elif x.kind == 'setitem' and isinstance(x.args[0], Node) and mentions(x.args[0], lambda n: n.op == 'ext' and str(n.args[0]) in ('os.environ', 'sys.modules')):
            rep.ob('process-setting', False, str(x.where or x.loc), f'{what}: {show(x.args[0], 2)} is changed')


class Keeping(Report):
    """a report of another rule, of which only the stores are judged"""

    def ob(self, key, ok, where='', msg=''):
        return ok

    def need(self, cond, what):
        pass

    def scenario(self, e, what):
        super().scenario(e, what)
        sub = Report('P26', 'quick')
        judge(sub, e, last(e), what)
        self.obs += sub.obs


def last(e):
    """objects of an evaluation, as far as they are known"""
    st = e.state()
    st.heap, st.cont = dict(e.global_heap), dict(st.cont or {})
    for x in e.events:
        if isinstance(x.heap, dict):
            st.heap.update(x.heap)
        if isinstance(x.cont, dict):
            st.cont.update(x.cont)
    return st


def evaluated(rep, overlay, what):
    if what == 'command':
        e = run_controller(overlay, {'outMaps.format': 'pcraster'}, stubs=STUBS)[0]
    elif what == 'netcdf':
        e = run_controller(overlay, {'outMaps.format': 'netcdf'}, stubs=STUBS)[0]
    elif what == 'api':
        e = run_api(overlay, {}, stubs=STUBS)[0]
    elif what == 'corrector':
        return corrector(rep, overlay)
    elif isinstance(what, tuple):
        k = tables.interpolate(overlay, what[1], gid=-1 if what[2] else GIDN, calls=1)
        rep.scenario(k.e, f'interpolation with {what[1]}')
        judge(rep, k.e, k.st, f'interpolation with {what[1]}')
        rep.ob(f'evaluated:{what[1]}', True)
        return
    else:
        sub = Keeping(what.upper(), 'quick')
        try:
            importlib.import_module('rules.' + what).check(sub, overlay)
        except Exception as ex:
            if type(ex).__name__ != 'AnalysisError':
                raise
        rep.obs += sub.obs
        rep.scenarios += [f'{what.upper()}: {s}' for s in sub.scenarios]
        rep.files |= sub.files
        rep.funcs |= sub.funcs
        rep.calls += sub.calls
        rep.ob(f'evaluated:{what}', True)
        return
    rep.scenario(e, what)
    judge(rep, e, last(e), what)
    rep.ob(f'evaluated:{what}', True)


GIDN = N('param', 'gid')


def corrector(rep, overlay):
    """corrections are kept: what one is made from, and what correcting does to it"""
    def call(e, fi, selfn, args, kw, st):
        if fi.cls is None:
            return None
        if fi.cls.name == 'Interpolator' and fi.name != '__init__':
            b = tuple(e.freeze(a, st) for a in list(args) + list(kw.values())) + tuple(cfg('interpolation.' + k) for k in HOW)
            return N('op', 'interpolation', b)
        if fi.cls.name == 'GRIBReader' and fi.name != '__init__':
            return N('op', 'grib ' + fi.name, selfn, tuple(e.freeze(a, st) for a in args))
        return None

    def new(e, ci, args, kw, st):
        if ci.name in ('PCRasterReader', 'NetCDFReader', 'GRIBReader'):
            return N('op', 'reader', e.freeze(args[0], st), const(ci.name))
        return None
    e = engine(overlay, {'invoke': call, 'instantiate': new})
    st = e.state()
    ctx = make_ctx(e, st, {})
    c, st, r = e.run(e.getattr(e.find_class('Corrector'), 'get_instance', st), [ctx, N('param', 'grid id')], {}, st)
    rep.need(c is not None, 'no correction is made')
    v, st, r = e.run(e.getattr(c, 'correct', st), [N('param', 'values')], {}, st)
    rep.scenario(e, 'correction')
    judge(rep, e, st, 'correction')
    rep.ob('evaluated:corrector', True)


# ------------------------------------------------------------------ the text of the modules

MEMO = ('lru_cache', 'cache', 'memoize', 'cached')
READS = ('open', 'load', 'exists', 'isfile', 'listdir', 'glob', 'iglob', 'loads', 'GzipFile', 'Dataset', 'readmap', 'pcraster', 'stat', 'getmtime', 'environ', 'getenv', 'now', 'today')


def text(rep, overlay):
    src = sources('/repo/src', overlay)
    rep.need(len(src) > 10, 'the package has no modules')
    for path, t in sorted(src.items()):
        tree = t if isinstance(t, ast.AST) else ast.parse(t)
        rep.files.add(path)
        for f in ast.walk(tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            glob = {n for s in ast.walk(f) if isinstance(s, ast.Global) for n in s.names}
            sets = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob}
            rep.ob(f'module-variable:{path}', not sets, f'{path}:{f.lineno} ({f.name})', f'module variables {", ".join(sorted(sets))} are set by an execution')
            for d in f.decorator_list:
                n = d.func if isinstance(d, ast.Call) else d
                n = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '')
                if n in MEMO:
                    calls = {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(f) if isinstance(x, (ast.Attribute, ast.Name))}
                    bad = sorted(calls & (set(READS) | {'self', 'cls', 'ctx'}))
                    rep.ob(f'memo:{path}', not bad, f'{path}:{f.lineno} ({f.name})', f'results are kept for all executions, made with {", ".join(bad)}')
