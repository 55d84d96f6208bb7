"""Aggregation keeps missing cells."""
from .missing import *

EXPLAIN = ('The aggregation is evaluated abstractly for each type; for every array it stores (results and intermediate messages) the set of messages it is computed from is derived, '
           'and the set of those whose mask it carries (arithmetic on masked arrays keeps masks, numexpr, data and plain numpy functions drop them, masked_where adds those of its condition).')
RULE = 'every array stored or returned by an aggregation carries the masks of all messages its values are computed from'
ASSUME = ['missing cells of messages are masked, by the reader']
TYPES = {'accumulation': ('accum', 'avg', 'instant'), 'average': ('avg', 'instant'), 'instantaneous': ('avg', 'instant')}


def aggregate(overlay, kind, **fixed):
    e = engine(overlay, {})
    st = e.state()
    kw = {k: N('param', k) for k in ('mv_grib', 'step_type', 'input_step', 'unit_time', 'aggr_step', 'aggr_halfweights', 'force_zero_array', 'start_step', 'end_step')}
    kw['aggr_type'] = const(kind)
    kw.update({k: const(v) for k, v in fixed.items()})
    a, st, r = e.run(e.find_class('Aggregator'), [], kw, st)
    v, st, r = e.run(e.getattr(a, 'do_manipulation', st), [N('param', 'values')], {}, st)
    return e, e.freeze(v, st), st, r


class Kinds:
    """what a value is: 'map' of arrays by step, list of 'vals' / 'items' / 'keys', 'arr', 'pair', 'key'"""

    def __init__(self, e, root):
        self.e, self.root, self.memo = e, root, {}

    def __call__(self, n):
        if n not in self.memo:
            self.memo[n] = None
            self.memo[n] = self.find(n)
        return self.memo[n]

    def find(self, n):
        k = self
        if n is self.root:
            return 'map'
        if n.op == 'mu':
            return k(self.e.mus[n.args][0])
        if n.op in ('upd', 'dupdate'):
            return k(n.args[0]) or (k(n.args[2]) and 'map' if n.op == 'upd' and len(n.args) > 2 and k(n.args[2]) == 'arr' and k.empty(n.args[0]) else None)
        if n.op == 'ite':
            ks = {k(l) for l in leafset(n)} - {None}
            return ks.pop() if len(ks) == 1 else None
        if n.op in ('sub', 'elem', 'keyof', 'valof'):
            b = k(n.args[0] if n.op == 'sub' else n.args[1])
            if n.op == 'sub':
                if b in ('map', 'vals'):
                    return 'arr'
                if b == 'pair':
                    return {0: 'key', 1: 'arr'}.get(n.args[1].args[0]) if is_const(n.args[1]) else None
                if b in ('keys', 'items') and n.args[1].op == 'slice':
                    return b
                return {'keys': 'key', 'items': 'pair'}.get(b)
            if n.op == 'keyof':
                return 'key' if b else None
            if n.op == 'valof':
                return 'arr' if b else None
            return {'map': 'key', 'keys': 'key', 'vals': 'arr', 'items': 'pair'}.get(b)
        if n.op == 'tuple':
            return 'pair' if len(n.args[0]) == 2 and k(n.args[0][1]) == 'arr' else None
        if n.op in ('dcomp', 'comp'):
            if n.op == 'dcomp':
                return 'map' if k(n.args[1]) == 'arr' else None
            return {'arr': 'vals', 'pair': 'items', 'key': 'keys'}.get(k(n.args[1]), 'keys' if n.args[1].op == 'attr' and k(n.args[1].args[0]) == 'key' else None)
        if n.op == 'call':
            f = ext_of(n)
            a = n.args[1]
            if n.args[0].op == 'attr':
                b, m = k(n.args[0].args[0]), n.args[0].args[1]
                if b == 'map':
                    return {'items': 'items', 'values': 'vals', 'keys': 'keys', 'copy': 'map', 'get': 'arr', 'pop': 'arr'}.get(m)
                return b if m == 'copy' else None
            if a and isinstance(a[0], Node):
                b = k(a[0])
                if f in ('collections.OrderedDict', 'dict', 'copy.copy'):
                    return 'map' if b in ('map', 'items') else None
                if f in ('sorted', 'list', 'tuple', 'reversed', 'iter'):
                    return 'keys' if b == 'map' else b
        return None

    def empty(self, n):
        return n.op in ('empty', 'dictv') or n.op == 'call' and ext_of(n) in ('collections.OrderedDict', 'dict') and not n.args[1]


def message(e):
    """sources: items of the container of messages, or of one made from it"""
    k = Kinds(e, N('param', 'values'))

    def source(n):
        return n if n.op in ('sub', 'valof', 'elem', 'call') and k(n) == 'arr' and \
            (n.op != 'call' or n.args[0].op == 'attr' and n.args[0].args[1] in ('get', 'pop')) else None
    return source, k


def stores(e, n, g=1):
    """arrays stored in a container, with the conditions inside their loop: [(condition, key, value, node)]"""
    out, seen, st = [], set(), [(n, 1)]
    while st:
        x, g = st.pop()
        for c, l in leaves(x, g):
            if l.op == 'upd' and len(l.args) >= 3:
                if l not in seen:
                    seen.add(l)
                    out.append((c, l.args[1], l.args[2], l))
                    st.append((l.args[0], 1))
            elif l.op == 'dupdate':
                st += [(y, 1) for y in l.args if isinstance(y, Node)]
            elif l.op == 'mu' and l not in seen:
                seen.add(l)
                for y in e.mus[l.args]:
                    st.append((y, 1))
            elif l.op == 'dcomp' and l not in seen:
                seen.add(l)
                out.append((c, l.args[0], l.args[1], l))
            elif l.op == 'call' and ext_of(l) in ('collections.OrderedDict', 'dict', 'sorted'):
                st += [(y, 1) for y in l.args[1] if isinstance(y, Node)]
            elif l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] in ('items', 'copy'):
                st.append((l.args[0].args[0], 1))
    return out


def check(rep, overlay=None):
    for kind, steps in TYPES.items():
        for step in steps:
            for half in ((True, False) if kind == 'average' else (False,)):
                for zero in ((True, False) if kind == 'accumulation' else (False,)):
                    e, v, st, r = aggregate(overlay, kind, step_type=step, aggr_halfweights=half, force_zero_array=zero)
                    tag = kind + ('/half' if half else '') + ('/zero' if zero else '')
                    rep.scenario(e, f'{tag} of {step}')
                    src, kinds = message(e)
                    out = stores(e, v)
                    rep.need(out, f'{kind} returns nothing')
                    seen = {l for *_, l in out}
                    # messages created on the way
                    for x in list(e.mus.values()):
                        for y in x:
                            for c, l in leaves(y):
                                for z in walk(l):
                                    if z.op == 'sub' and kinds(z.args[0]) == 'map':
                                        for s in stores(e, z.args[0]):
                                            if s[3] not in seen:
                                                seen.add(s[3])
                                                out.append(s)
                    m = Missing(e, src, kinds)
                    n = 0
                    for c, key, val, l in out:
                        where = 'pyg2p/main/manipulation/aggregator.py'
                        try:
                            res = m.arr(val, c)
                        except Unknown as x:
                            rep.need(False, str(x))
                        for d, (S, U) in res:
                            n += 1
                            lost = [show(s, 3)[:80] for s, h in U]
                            rep.ob(f'{tag}', not U, where, f'{tag} of {step}: missing cells of {lost[:1]} are not missing in a result computed from it')
                    rep.ob(f'{tag}:values', any(S for c, key, val, l in out for d, (S, U) in m.arr(val, c)), 'pyg2p/main/manipulation/aggregator.py', 'results are not computed from messages')
