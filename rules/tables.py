"""Interpolation with tables: lookup, creation, registration, use."""
from .pipe import *
from .p23 import code_of
from .p24 import variable, exists
from .p34 import atoms, knows, folder_world

MODES = ('grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')
GRIB = MODES[:2]
V, GID, LATS, LONS, MVIN = (N('param', x) for x in ('field', 'grid_id', 'grib_lats', 'grib_lons', 'mv_in'))
AUX = {k: N('param', k) for k in ('aux_gid', 'aux_values', 'aux_gid2', 'aux_values2')}
COMPUTED = ('xs', 'ys', 'idxs1', 'idxs2', 'idxs3', 'idxs4', 'coeffs1', 'coeffs2', 'coeffs3', 'coeffs4')


def is_computed(n):
    return n.op == 'op' and n.args[0] == 'computed'


class Run:
    pass


def interpolate(overlay, mode, gid=-1, second=False, fixed=None, cls='ExecutionContext', calls=1, world=None):
    """one interpolation in the given mode on open settings, configuration and folders"""
    k = Run()
    k.n1, k.marks = 10 ** 9, []

    def new(e, ci, args, kw, st):
        if ci.name in ('PCRasterReader', 'NetCDFReader') and args:
            return N('op', 'map', args[0], const(ci.name))
        if ci.name == 'ScipyInterpolation':
            return N('op', 'scipy', tuple(e.freeze(a, st) for a in args), tuple(sorted((n, e.freeze(v, st)) for n, v in kw.items())))
        return None

    def ext(e, nm, args, kw, st):
        if nm not in ('os.path.exists', 'os.path.isfile') or not args:
            return None
        p, c = e.freeze(args[0], st), 0
        for x in e.events[k.n1:]:
            if x.kind == 'call' and x.args and (ext_name(x.fn) == 'numpy.save' or ext_name(x.fn) in ('gzip.GzipFile', 'gzip.open') and len(x.args) > 1 and is_const(x.args[1]) and 'w' in str(x.args[1].args[0])):
                for c1, l1 in leaves(p, st.g):
                    for c2, l2 in leaves(x.args[0], x.g):
                        if l1 is l2:
                            c = B.OR(c, B.AND(c1, c2))
        if not c:
            return None
        e.hooks['ext'] = None
        r = e.extcall(N('ext', nm), args, kw, st)
        e.hooks['ext'] = ext
        return ite(c, TRUE, r)

    def call(e, fi, selfn, args, kw, st):
        if fi.cls is None and 'grib_interpolation_lib' in str(getattr(fi.module, 'path', fi.module)) and fi.name.startswith('grib_'):
            b = tuple(e.freeze(x, st) for x in list(args) + list(kw.values()))
            n = 3 if 'nearest' in fi.name else 10
            names = ('xs', 'ys', 'idxs') if n == 3 else COMPUTED
            e.emit('op', st, N('ext', 'compute'), b, (('fn', const(fi.name)),))
            return N('tuple', tuple(N('op', 'computed', x, b, const(fi.name)) for x in names))
        return None
    e = engine(overlay, {'instantiate': new, 'invoke': call, **({'ext': ext} if world is not None else {})}, forget=False)
    if world is not None:
        world.e, e.decide = e, world
    st = e.state()
    conf, st, r0 = e.run(e.find_class('Configuration'), [], {}, st)
    k.n0 = len(e.events)
    ctx = make_ctx(e, st, {'interpolation.mode': mode, **(fixed or {})}, cls)
    e.setattr(ctx, 'configuration', conf, st)
    it, st, r1 = e.run(e.find_class('Interpolator'), [ctx, MVIN], {}, st)
    k.n1 = len(e.events)
    if mode in GRIB:
        _, st, r = e.run(e.getattr(it, 'aux_for_intertable_generation', st), [AUX['aux_gid'], AUX['aux_values'], AUX['aux_gid2'], AUX['aux_values2']], {}, st)
    k.vals = []
    k.r = list(r1)
    for i in range(calls):
        a = [LATS, LONS, V, GID, N('param', 'geodetic_info'), const(-1) if gid == -1 else gid]
        k.marks.append(e.seq)
        v, st, r = e.run(e.getattr(it, 'interpolate', st), a, {'is_second_res': TRUE if second else FALSE}, st)
        k.vals.append((e.freeze(v, st), st.g))
        k.r += r
    k.e, k.st, k.it, k.ctx, k.conf = e, st, it, ctx, conf
    return k


def dirkey(n, ctxname='interpolation.dirs'):
    """which of the tables folders ('user', 'global') a path lies in"""
    out = set()
    for x in walk(n):
        k = None
        if x.op == 'sub':
            m, k = x.args[0], x.args[1]
        elif x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and x.args[1]:
            m, k = x.args[0].args[0], x.args[1][0]
        if k is not None and is_const(k, 'user', 'global') and mentions(m, lambda y: cfg_key(y) == ctxname):
            out.add(k.args[0])
    return out


def cfg_key(n):
    return n.args[1].args[0] if n.op == 'cfg' else None


def is_id(n):
    """the identity of a table: made of the grid's id"""
    return n.op != 'mu' and mentions(n, lambda x: x is GID)


def strip_path(n):
    while n.op == 'call' and ext_of(n) in ('os.path.normpath', 'os.path.realpath', 'os.path.abspath', 'str', 'pathlib.Path', 'os.fspath') and n.args[1]:
        n = n.args[1][-1]
    return n


def tail(n):
    """constant text a path ends with"""
    n = strip_path(n)
    if is_const(n):
        return str(n.args[0])
    if n.op == 'fmt':
        return tail(n.args[0][-1]) if isinstance(n.args[0], tuple) else tail(n.args[-1])
    if n.op == 'bin' and n.args[0] == '+':
        return tail(n.args[2])
    if n.op == 'call' and ext_of(n) in ('os.path.join',) and n.args[1]:
        return tail(n.args[1][-1])
    if n.op == 'tuple' and n.args[0]:
        return tail(n.args[0][-1])
    return ''


class Place:
    """what is known about folders, the registry and table files"""

    def __init__(self, registered=True, user=True, there=(), create=False, defined=True, folder=True, write=True, named_gz=True, new_exists=False, cached=False, nc=None, taken=None):
        self.__dict__.update(locals())
        self.there = None if there is None else set(there)
        self.memo = {}
        self.trys = {}

    def single(self, n):
        """a value's alternatives that remain"""
        return [l for c, l in restricted(n, self)]

    def file(self, n):
        """(folder, 'entry' / 'new', '.gz' appended) of a path, None for anything else"""
        n = strip_path(n)
        if n.op == 'fmt' and n.args[0] and is_const(n.args[0][-1]) and len(n.args[0]) == 2:
            inner = self.path(n.args[0][0])
            return inner and (inner[0], inner[1], inner[2] + str(n.args[0][-1].args[0]))
        if n.op == 'bin' and n.args[0] == '+' and is_const(n.args[2]):
            inner = self.path(n.args[1])
            return inner and (inner[0], inner[1], inner[2] + str(n.args[2].args[0]))
        d = dirkey(n)
        if n.op == 'mu' and self.e:
            ks = {self.file(x) for m in self.e.mus.get(n.args, ()) for x in leafset(m)}
            return ks.pop() if len(ks) == 1 else None
        if len(d) != 1:
            return None
        entry = any(x.op == 'sub' and is_const(x.args[1], 'filename') or x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and x.args[1] and is_const(x.args[1][0], 'filename')
                    for x in walk(n))
        t = tail(n) if entry else ''
        return (next(iter(d)), 'entry' if entry else 'new', t)

    def path(self, n):
        k = self.memo.get(n)
        if k is None:
            self.memo[n] = (None,)
            ks = {self.file(x) for x in self.single(n)}
            k = self.memo[n] = (ks.pop() if len(ks) == 1 else None,)
        return k[0]

    def exists(self, f):
        return self.new_exists if f[1] == 'new' else None if self.there is None else (f[0], f[2]) in self.there

    e = None

    def __call__(self, a):
        if a.op == 'exc_in':
            fs = self.trys.get(a.args[0])
            if fs is None:
                return False
            for x in fs:
                f = self.path(x)
                if f is None:
                    return None
                if self.exists(f) is None:
                    return None
                if not self.exists(f):
                    return True
            return False
        if a.op == 'eq' and any(is_const(x, -1) for x in a.args) and any(x.op == 'param' for x in a.args):
            return False
        if a.op == 'iter':
            it = self.e.loopinfo.get(a.args[0], {}).get('iter')
            if it is not None and mentions(it, lambda x: is_const(x, 'INTERTABLES')) and all(l.op in ('listv', 'tuple') and l.args[0] for l in self.single(it)):
                return True
            return None
        if a.op == 'isinst' and variable(a.args[0]) == 'INTERTABLES':
            return not set(x for x in a.args[1:] if isinstance(x, str)) & {'tuple', 'list'} and not mentions(a, lambda x: x.op == 'ext' and x.args[0] in ('tuple', 'list')) and None
        if a.op == 'in':
            k, m = a.args
            if self.taken is not None and not is_id(k) and mentions(m, lambda y: is_const(y, 'filename')) and mentions(m, lambda y: y.op == 'ext' and y.args[0].startswith('json.')):
                return self.taken
            if dirkey(k) or is_id(k):
                return self.registered if not dirkey(k) and mentions(m, lambda x: x.op == 'ext' and x.args[0].startswith('json.')) else self.cached
            if is_const(k, 'INTERTABLES'):
                return self.defined
        if a.op in ('truth', 'isnone'):
            x, yes = a.args[0], a.op == 'truth'
            if self.nc is not None and x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'endswith' and cfg_key(x.args[0].args[0]) in ('interpolation.latMap', 'interpolation.lonMap') and is_const(x.args[1][0], '.nc'):
                return self.nc == yes
            if cfg_key(x) == 'interpolation.create':
                return None if self.create is None else self.create == yes
            if x.op == 'call' and x.args[1] and ext_of(x) in ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists', 'os.access'):
                f = self.path(x.args[1][0])
                if f is not None:
                    return False if ext_of(x) == 'os.path.isdir' else self.exists(f)
            if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'endswith' and x.args[1] and is_const(x.args[1][0], '.gz'):
                f = self.path(x.args[0].args[0])
                if f is not None:
                    return (True if f[2].endswith('.gz') else self.named_gz) if f[1] == 'entry' else True
                if mentions(x.args[0].args[0], lambda y: is_const(y, 'filename')):
                    return self.named_gz
            if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('exists', 'is_file'):
                f = self.path(x.args[0].args[0])
                if f is not None:
                    return self.exists(f)
            if (x.op in ('fmt', 'bin', 'mu') or ext_of(x) in ('os.path.normpath', 'os.path.join', 'os.path.abspath', 'os.path.realpath', 'pathlib.Path')) and self.path(x) is not None:
                return yes
            d = x.op in ('sub', 'call') and not mentions(x, lambda y: y.op == 'ext' and y.args[0].startswith('os.path')) and dirkey(x)
            if d == {'user'}:
                return None if self.user is None else self.user == yes
            if is_id(x) and (x.op == 'sub' or x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and len(x.args[1]) < 2):
                return None if self.registered is None else self.registered == yes
            if x.op in ('sub', 'call', 'elem') and variable(x) == 'INTERTABLES':
                n = ext_of(x)
                if n in ('os.path.exists', 'os.path.isdir', 'os.path.isfile'):
                    return None if self.folder is None else self.folder and n != 'os.path.isfile'
                if n == 'os.access':
                    return self.write if mentions(x.args[1][1], lambda y: y.op == 'ext' and y.args[0] == 'os.W_OK') else True
                if x.op in ('sub', 'elem') or x.args[0].op == 'attr':
                    return None if self.defined is None else self.defined == yes
        return None

    def on(self, k):
        """in this run"""
        self.e = k.e
        self.memo = {}
        self.trys = {}
        for x in k.e.events[k.n1:]:
            if x.kind == 'call' and ext_name(x.fn) in LOADS:
                for t in x.trys:
                    if any('FileNotFoundError' in str(y) or 'OSError' in str(y) or 'Exception' in str(y) for y in t[1]):
                        self.trys.setdefault(t[0], []).append(x.args[0])
        return self


LOADS = ('numpy.load', 'gzip.GzipFile', 'gzip.open', 'open')


def opened(k, w):
    """[(path value, event, 'r'/'w')] of table files opened under world w"""
    out = []
    for x in k.e.events[k.n1:]:
        if x.kind not in ('call', 'op') or x.fn is None:
            continue
        n = ext_name(x.fn) or ''
        kw = dict(x.kw or ()) if isinstance(x.kw, (tuple, list)) else (x.kw or {})
        if n in ('numpy.load', 'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'shutil.copy', 'shutil.copyfile', 'shutil.move', 'os.rename', 'os.replace', 'os.remove', 'os.unlink') and x.args:
            p, m = x.args[0], 'r' if n == 'numpy.load' else 'w'
            if n.startswith(('shutil', 'os.re')) and len(x.args) > 1:
                p = x.args[1]
        elif n in ('gzip.GzipFile', 'gzip.open', 'open') and x.args:
            p = x.args[0]
            md = x.args[1] if len(x.args) > 1 else kw.get('mode', const('r'))
            m = 'r' if is_const(md) and not set(str(md.args[0])) & set('wax+') else 'w'
        else:
            continue
        g = B.restrict_map(x.g, w)
        if not g:
            continue
        for c, l in restricted(p, w, x.g):
            if l.op == 'call' and ext_of(l) in ('gzip.GzipFile', 'gzip.open', 'open'):
                continue
            for L in {y.args[0] for y in walk(l) if y.op in ('mu', 'elem', 'lidx', 'keyof', 'valof')}:
                if L not in x.loops:
                    c = B.AND(c, B.restrict_map(k.e.loopinfo.get(L, {}).get('exit', 1), w))
            if not c:
                continue
            out.append((l, x, m))
    return out


OPEN = dict(registered=None, user=None, there=None, create=None, defined=None, folder=None, write=None, named_gz=None, new_exists=None, cached=None)


def codes(k, w):
    return {str(code_of(o)) for o in k.r if B.restrict_map(o[0], w)}


def done(k, w):
    return [bool(B.restrict_map(g, w)) for v, g in k.vals]


def tablefile(x, f):
    """this opened file is a table (not the registry)"""
    return f is not None


def registry(n):
    """this path is the one of the registry of tables"""
    return all(tail(l).endswith('.json') for l in leafset(n))


def subsets(xs):
    for i in range(1 << len(xs)):
        yield {x for j, x in enumerate(xs) if i >> j & 1}


def states(both=True):
    """every state of the registry and the files: keyword arguments for Place"""
    for gz in (True, False):
        places = [(d, s) for d in ('user', 'global') for s in (('',) if gz else ('', '.gz'))]
        for there in subsets(places):
            yield dict(registered=True, there=there, named_gz=gz, new_exists=None)
        for there in ((), places):
            yield dict(registered=False, there=set(there), named_gz=gz, new_exists=None)
