"""Scenarios: entry points of the package evaluated over abstract inputs."""
from .core import *
from .engine import *


def cfg(key):
    return N('cfg', N('total', 'ctx'), const(key))


class Stub:
    """replaces a public operation of a class by an opaque value"""

    def __init__(self, table):
        self.table = table      # (Class, method) -> callable(e, self, args, kw, st) -> Node
        self.hits = {}

    def __call__(self, e, fi, selfn, args, kw, st):
        if fi.cls is None:
            k = (None, fi.name)
        else:
            k = (fi.cls.name, fi.name)
        f = self.table.get(k)
        if f is None:
            return None
        r = f(e, fi, selfn, args, kw, st)
        if r is not None:
            self.hits[k] = self.hits.get(k, 0) + 1
        return r


def bindargs(e, fi, selfn, args, kw):
    """positional/keyword arguments of a call as a dict by parameter name"""
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if fi.kind != 'static' and fi.cls is not None:
        names = names[1:]
    d = dict(zip(names, args))
    d.update(kw)
    nd = len(fi.defaults)
    allp = [x.arg for x in a.posonlyargs + a.args]
    for i, p in enumerate(allp):
        j = i - (len(allp) - nd)
        if j >= 0 and p not in d:
            d[p] = fi.defaults[j]
    return d


def op(name, *keep):
    """stub producing op(name, selected args)"""
    def f(e, fi, selfn, args, kw, st):
        d = bindargs(e, fi, selfn, args, kw)
        vals = tuple(e.freeze(d[k], st) if k in d else NONE for k in keep) if keep else tuple(e.freeze(x, st) for x in args)
        n = N('op', name, vals)
        e.emit('op', st, N('ext', name), tuple(vals), tuple((k, e.freeze(v, st)) for k, v in d.items()), node=n, extra=selfn)
        return n
    return f


def engine(overlay=None, hooks=None, root='/repo/src', forget=True):
    e = Engine(root=root, overlay=overlay, hooks=hooks)
    e.forget = forget
    e.load_all()
    return e


def make_ctx(e, st, fixed=None, cls='ExecutionContext'):
    c = e.find_class(cls)
    known = {const(k): (v if isinstance(v, Node) else const(v)) for k, v in (fixed or {}).items()}
    d = e.newref(st, HObj('dict', None, known, N('total', 'ctx')))
    return e.newref(st, HObj('inst', e.cinfo(c), {'_vars': d}, N('total', 'ctxattr')))


def run_controller(overlay=None, fixed=None, stubs=None, hooks=None, write=True):
    hooks = dict(hooks or {})
    stub = None
    if stubs:
        stub = Stub(stubs)
        hooks['invoke'] = stub
    e = engine(overlay, hooks)
    st = e.state()
    ctx = make_ctx(e, st, fixed)
    c, st, r0 = e.run(e.find_class('Controller'), [ctx], {}, st)
    m = e.getattr(c, 'execute', st)
    kw = {} if write else {'write_results': FALSE}
    v, st, r = e.run(m, [], kw, st)
    e.stub = stub
    return e, v, st, r


def run_api(overlay=None, fixed=None, stubs=None, hooks=None):
    hooks = dict(hooks or {})
    stub = None
    if stubs:
        stub = Stub(stubs)
        hooks['invoke'] = stub
    e = engine(overlay, hooks)
    st = e.state()
    ctx = make_ctx(e, st, fixed, cls='ApiContext')
    c, st, r0 = e.run(e.find_class('Pyg2pApi'), [ctx], {}, st)
    m = e.getattr(c, 'execute', st)
    v, st, r = e.run(m, [], {}, st)
    e.stub = stub
    return e, v, st, r


def maybe_raise(e, st, tag, code=None, ext='RuntimeError'):
    """the rest is reached only when 'raises <tag>' does not hold; otherwise an ApplicationException (code) or another exception is raised"""
    c = atom(N('raises', tag))
    x = st.copy()
    x.g = B.AND(st.g, c)
    if x.g:
        if code is not None:
            exc = e.call(e.getattr(e.find_class('ApplicationException'), 'get_exc', x), [code if isinstance(code, Node) else const(code)], {}, x)
        else:
            exc = N('exc', N('ext', ext), (const(tag),))
        e.do_raise(exc, x)
    st.g = B.AND(st.g, B.NOT(c))
