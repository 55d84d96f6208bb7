"""Model of a netCDF dataset as an execution writes it: variables, their attributes and what is stored in them."""
from .pipe import *
from .texts import *


class Var:
    def __init__(self, x):
        self.node, self.ev = x.node, x
        a, kw = x.args, dict(x.kw)
        pos = ('varname', 'datatype', 'dimensions')
        g = lambda i: a[i] if len(a) > i else kw.get(pos[i])
        self.name, self.type, self.dims = g(0), g(1), g(2)
        self.fill = kw.get('fill_value')
        self.attrs, self.stores, self.calls = {}, [], []

    def rank(self):
        return len(self.dims.args[0]) if self.dims is not None and self.dims.op in ('tuple', 'listv') else None

    def dimnames(self):
        return [d.args[0] if is_const(d) else None for d in self.dims.args[0]] if self.rank() is not None else []


def variables(e):
    """variables created in netCDF datasets"""
    out = []
    for x in e.events:
        if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'createVariable':
            out.append(Var(x))
    for i, x in enumerate(e.events):
        if x.kind == 'setattr':
            who, name, val = x.args[0], x.extra, x.args[1]
            for v in out:
                if v.node in leafset(who):
                    v.attrs.setdefault(name, []).append((x.g, val, x, i))
        elif x.kind == 'call' and x.fn.op == 'attr':
            m = x.fn.args[1]
            for v in out:
                if v.node in leafset(x.fn.args[0]):
                    v.calls.append((m, x, i))
                    if m == 'setncattr' and is_const(x.args[0]):
                        v.attrs.setdefault(x.args[0].args[0], []).append((x.g, x.args[1], x, i))
                    if m == 'setncatts':
                        d = x.args[0]
                        if d.op == 'dictv':
                            for k, val in d.args[0]:
                                v.attrs.setdefault(k.args[0] if isinstance(k, Node) else k, []).append((x.g, val, x, i))
        elif x.kind == 'call' and ext_name(x.fn) == 'setattr' and len(x.args) == 3 and is_const(x.args[1]):
            for v in out:
                if v.node in leafset(x.args[0]):
                    v.attrs.setdefault(x.args[1].args[0], []).append((x.g, x.args[2], x, i))
        elif x.kind == 'setitem':
            for v in out:
                if v.node in leafset(x.args[0]):
                    v.stores.append((x.g, x.args[1], x.args[2], x, i))
    return out


def netcdf_run(rep, overlay, fixed=None, **kw):
    k = run_given(rep, overlay, None, ('netcdf',), fixed, **kw)[0]
    k.vars = variables(k.e)
    k.main = [v for v in k.vars if v.rank() == 3]
    k.time = [v for v in k.vars if v.dimnames() == ['time']]
    rep.need(k.main, 'no netCDF variable of time, latitude and longitude is created')
    return k


def attr_leaves(v, name, d, g=1):
    """values of an attribute under decided atoms: [(condition, leaf, event)]"""
    out = []
    for h, val, x, i in v.attrs.get(name, []):
        for c, l in restricted(val, d, h):
            out.append((c, l, x))
    return out
